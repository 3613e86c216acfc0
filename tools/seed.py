import os,subprocess,shutil,json,sys,re
SC='/tmp/seedscratch'
def sh(cmd,cwd=None,timeout=300):
    return subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=timeout)
def orig_lines(f):
    o=sh(f'git -C /repo blame -s fcc5026..HEAD {f}').stdout.splitlines()
    return [l.startswith('^') for l in o]
DEMO_SH='''#!/bin/bash
# Run in /repo after the build. Everything is written inside of a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc -std=gnu99 -g -w %s -Iinclude -Isrc "$here/demo.c" $(find src -name '*.c') -o "$d/demo" %s || exit 2
cd "$d" || exit 2
ASAN_OPTIONS=detect_leaks=%d timeout 60 ./demo
'''
COMMON='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "id3v2lib.h"
#define FAIL(...) do { printf(__VA_ARGS__); puts(""); exit(1); } while (0)
static void put(const char* f, const void* p, size_t n) { FILE* o = fopen(f, "wb"); fwrite(p, 1, n, o); fclose(o); }
static size_t get(const char* f, char* p, size_t max) { FILE* o = fopen(f, "rb"); if (!o) return -1; size_t n = fread(p, 1, max, o); fclose(o); return n; }
'''
def make(id,prop,edits,demo,needs,breaks,flags='',libs='',leaks=0,check=True):
    if os.path.exists(SC): shutil.rmtree(SC)
    sh(f'cp -a /repo {SC}')
    for f,a,b in edits:
        p=f'{SC}/{f}'; s=open(p).read()
        if s.count(a)!=1: print(id,'EDIT not unique',f,s.count(a),a); return False
        s=s.replace(a,b); open(p,'w').write(s)
    d=sh(f'git -C {SC} diff -- src include').stdout
    # removed lines must be original
    ok=False; cur=None; ol=None
    for l in d.splitlines():
        m=re.match(r'--- a/(.*)',l)
        if m: cur=m.group(1); ol=orig_lines(cur)
        m=re.match(r'@@ -(\d+)',l)
        if m: n=int(m.group(1)); continue
        if l.startswith('---') or l.startswith('+++'): continue
        if l.startswith('-'):
            if ol[n-1]: ok=True
            else: print(id,'NOTE: changes one of our lines:',l)
            n+=1
        elif l.startswith(' '): n+=1
    if not ok: print(id,'WARNING: no original line is changed')
    dst=f'/verif/seeded/{id}'
    os.makedirs(dst,exist_ok=True)
    open(dst+'/patch.diff','w').write(d)
    open(dst+'/demo.c','w').write(COMMON+demo)
    open(dst+'/demo.sh','w').write(DEMO_SH%(flags,libs,leaks)); os.chmod(dst+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(dst+'/meta.json','w'),indent=1)
    r=sh(f'bash {dst}/demo.sh',cwd='/repo')
    if r.returncode: print(id,'demo fails on the unchanged tree',r.stdout[-2000:]); return False
    r=sh('make clean CC=gcc >/dev/null; make -j8 CC=gcc build_static 2>&1 | grep -i warning; make -j8 CC=gcc build_test >/dev/null 2>&1; ls test/main_test',cwd=SC)
    if 'main_test' not in r.stdout or 'warning' in r.stdout: print(id,'build:',r.stdout)
    r=sh(f'bash {dst}/demo.sh',cwd=SC)
    if r.returncode in (0,2): print(id,'demo does NOT fail with the patch',r.returncode,r.stdout[-500:]); return False
    print(id,'demo ok:',r.stdout.strip().splitlines()[-1:] )
    shutil.rmtree(SC)
    # stable test in /repo and check
    res=''
    if check:
        sh(f'git -C /repo apply {dst}/patch.diff')
        try:
            sh('bash /opt/vp/build.sh'); sh('bash /opt/vp/test.sh /tmp/o.json')
            if 'get_test_empty' not in str(json.load(open('/tmp/o.json'))['passed']): print(id,'STABLE TEST FAILS')
            r=sh(f'python3 /verif/check.py {prop} quick',cwd='/verif',timeout=900)
            print(id,'CAUGHT' if r.returncode==1 and 'VIOLATION' in r.stdout else 'MISSED rc=%d'%r.returncode)
            if r.returncode!=1: print(r.stdout[-1500:])
            else:
                print('   ',[l for l in r.stdout.splitlines() if l.startswith('space')][:1])
        finally:
            sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    return True
