"""setup_cmd: checks that both compilers and the sanitizer run-times work; the checks build everything else from /repo themselves."""
import subprocess, tempfile, os, sys, shutil
d = tempfile.mkdtemp(prefix='vf.setup.')
src = os.path.join(d, 'a.cpp'); open(src, 'w').write('int main(int c, char **){ return c - 1; }\n')
rc = 0
for cc in ('g++', 'clang++'):
    for fl in (['-fsanitize=undefined', '-fsanitize-trap=undefined'], ['-fsanitize=thread'], ['-fsanitize=address']):
        try: ok = subprocess.call([cc, '-std=c++14'] + fl + [src, '-o', d + '/a']) == 0 and subprocess.call([d + '/a']) == 0
        except OSError: ok = False
        if not ok: print('warning: %s %s does not work here' % (cc, fl))
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
shutil.rmtree(d)
sys.exit(rc)
