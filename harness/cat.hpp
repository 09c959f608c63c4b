// Identity of error codes and conditions across translation units (C19): interface between the units.
#ifndef VF_CAT_HPP
#define VF_CAT_HPP
#include <system_error>
#include <string>
#include <exception>
struct Api {
    std::error_code (*make)(int);                    // from the enumerator
    void (*raise)(int code, int path);               // throws: 0 an operation that fails this way, 1 dispatch, 2 plain system_error
    bool (*can)(int code, int path);
    bool (*is)(const std::error_code &, int code);   // comparison with the enumerator, both ways round
    bool (*isnt)(const std::error_code &, int code);
    bool (*cond)(const std::error_code &, int c);    // comparison with the condition, both ways round, and equivalent()
    int (*taken)(int code);                          // the action the library takes: mask of actions run
    std::string (*msg)(int code); std::string (*name)();
    const std::error_category * (*cat)(); const std::error_category * (*acat)();
    std::error_condition (*mkcond)(int);
    std::error_code (*early)();                      // code of an error raised while this unit's statics were initialised
};
#endif
