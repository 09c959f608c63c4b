#include "mon.hpp"
#include "cat.hpp"
#include <set>
#include <memory>
namespace mon {
struct Got { std::string how; int code; std::error_code e; };
// the documented classes: which condition belongs to which error
inline int cond_of(int code){ return code == 0 ? 0 : code == 10 ? 1 : code <= 6 ? 2 : 3; }
inline int cat_main(const char * config, std::vector<const Api *> tu){
    static const char * cn[] = {"no_action","uninitialized_value","arithmetic_error","implementation_defined_behavior","undefined_behavior"};
    std::string C = config; int N = (int)tu.size(); std::vector<Got> got;
    auto ev = [&](bool ok, const std::string & site, const char * kind, const std::string & in, const std::string & d){
        ++total.n; ++total.nontriv; ++total.val; if(!ok) fail(C + " " + site, kind, in, d);
        if(total.n % 9001 == 17) sample(C + " " + site + ": " + in + " -> " + d);
    };
    auto U = [](int i){ return "unit " + std::to_string(i); };
    progress(C + " raise");
    for(int i = 0; i < N; ++i){
        for(int c = 0; c <= 10; ++c){
            Got g; g.how = U(i) + " made"; g.code = c; g.e = tu[i]->make(c); got.push_back(g);
            for(int p = 0; p < 3; ++p) if(tu[i]->can(c, p)){
                bool caught = false; std::exception_ptr ep; Got t; t.code = c; t.how = U(i) + (p == 0 ? " operation" : p == 1 ? " dispatch" : " throw");
                try { tu[i]->raise(c, p); }
                catch(const std::system_error & e){ caught = true; t.e = e.code(); ep = std::current_exception();
                    ev(std::string(e.what()).find(tu[(i + 1) % N]->msg(c)) != std::string::npos, "what", "message-lost", t.how + " " + codename(c), e.what()); }
                catch(...){ ep = std::current_exception(); }
                ev(caught, "raise", "not-raised", t.how + " " + codename(c), caught ? "caught as system_error in the main unit" : "not caught as system_error");
                if(!caught) continue;
                got.push_back(t); ++feature[std::string("raised by path ") + std::to_string(p)];
                try { std::rethrow_exception(ep); } catch(const std::system_error & e){ t.how += " rethrown"; t.e = e.code(); got.push_back(t); } catch(...){}
            }
        }
        Got g; g.how = U(i) + " static initialisation"; g.code = 1 + i % 3; g.e = tu[i]->early(); got.push_back(g);
    }
    progress(C + " compare");
    std::set<const std::error_category *> cats, acats;
    for(int i = 0; i < N; ++i){ cats.insert(tu[i]->cat()); acats.insert(tu[i]->acat()); ev(!tu[i]->name().empty() && tu[i]->name() == tu[0]->name(), "category", "category-name", U(i), tu[i]->name()); }
    for(auto & g : got) cats.insert(&g.e.category());
    ev(cats.size() == 1, "category", "category-not-unique", "", std::to_string(cats.size()) + " different error categories"); ev(acats.size() == 1, "category", "category-not-unique", "conditions", std::to_string(acats.size()) + " different condition categories");
    ev(!cats.count(&std::generic_category()) && !cats.count(&std::system_category()) && !cats.count(*acats.begin()), "category", "category-not-own", "", "compared with the standard categories");
    for(auto & g : got) for(int j = 0; j < N; ++j){
        int hits = 0;
        for(int c = 0; c <= 10; ++c){
            bool is = tu[j]->is(g.e, c), isnt = tu[j]->isnt(g.e, c); hits += is;
            ev(is == (c == g.code) && isnt == (c != g.code), "enumerator", "code-identity", g.how + " " + codename(g.code) + " compared in " + U(j) + " with " + codename(c), is ? "equal" : isnt ? "different" : "inconsistent");
        }
        int cc = cond_of(g.code);
        for(int c = 0; c < 5; ++c){
            bool m = false; std::string d; try { m = tu[j]->cond(g.e, c); d = m ? "matches" : "does not match"; } catch(const std::exception & x){ m = c != cc; d = x.what(); }
            ev(m == (c == cc), "condition", "condition-match", g.how + " " + codename(g.code) + " compared in " + U(j) + " with " + cn[c], d);
            for(int k = 0; k < N; ++k) ev((g.e == tu[k]->mkcond(c)) == (c == cc), "condition", "condition-match", g.how + " " + codename(g.code) + " with " + cn[c] + " made by " + U(k), "");
        }
        int want = g.code ? 1 << cc : 0, t = tu[j]->taken(g.code);
        ev(t == want, "action", "action-differs-from-condition", std::string(codename(g.code)) + " in " + U(j), "actions " + std::to_string(t) + ", condition " + cn[cc]);
        ev(g.e.message() == tu[j]->msg(g.code) && !g.e.message().empty(), "message", "message-differs", g.how + " " + codename(g.code) + " and " + U(j), "'" + g.e.message() + "' and '" + tu[j]->msg(g.code) + "'");
        ev((bool)g.e == (g.code != 0), "boolean", "success-value", g.how + " " + codename(g.code), (bool)g.e ? "true" : "false");
        // codes of other categories with the same number are different errors
        for(const std::error_category * o : {&std::generic_category(), &std::system_category()}){
            std::error_code f(g.e.value(), *o); bool any = f == g.e; for(int c = 0; c <= 10; ++c) any = any || tu[j]->is(f, c); for(int c = 0; c < 5; ++c) any = any || tu[j]->cond(f, c);
            ev(!any, "foreign", "foreign-code-matches", std::string(o->name()) + " " + std::to_string(f.value()) + " in " + U(j), any ? "matches" : "matches nothing");
        }
    }
    std::map<std::string,int> msgs; std::set<std::error_code> uniq; std::set<size_t> hashes;
    for(auto & g : got){ uniq.insert(g.e); hashes.insert(std::hash<std::error_code>()(g.e)); auto r = msgs.insert(std::make_pair(g.e.message(), g.code)); ev(r.first->second == g.code, "message", "message-not-distinct", codename(g.code), g.e.message()); }
    ev(uniq.size() == 11, "set", "codes-not-unified", "", std::to_string(uniq.size()) + " distinct codes in a set"); ev(hashes.size() == 11, "set", "codes-not-unified", "hash", std::to_string(hashes.size()) + " distinct hashes");
    for(auto & a : got) for(auto & b : got) ev((a.e == b.e) == (a.code == b.code), "pairs", "code-identity", a.how + " " + codename(a.code) + " with " + b.how + " " + codename(b.code), a.e == b.e ? "equal" : "different");
    feature["codes obtained"] += got.size(); feature["translation units"] += N;
    done(); return 0;
}
}
