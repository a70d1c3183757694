#!/usr/bin/env python3
"""Build the model checker for one property from /repo's current working tree.

usage: build.py C01 [...]   -> prints the path(s) of the executables
"""
import fcntl, hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
B = os.environ.get('MC_BUILD', os.path.join(V, 'build'))
MC = os.path.join(V, 'mc')

WRAP = '''open open64:open openat openat64:openat creat creat64:creat close read pread pread64:pread write pwrite pwrite64:pwrite
readv writev preadv preadv64:preadv pwritev pwritev64:pwritev lseek lseek64:lseek fstat fstat64:fstat stat stat64:stat lstat lstat64:lstat
access faccessat unlink unlinkat remove rename renameat link symlink mkdir chmod fchmod fsync fdatasync syncfs sync_file_range
posix_fadvise posix_fadvise64:posix_fadvise ftruncate ftruncate64:ftruncate truncate truncate64:truncate fallocate fallocate64:fallocate
posix_fallocate posix_fallocate64:posix_fallocate ioctl dup fcntl fcntl64:fcntl isatty mmap mmap64:mmap munmap msync madvise
fopen fopen64:fopen fdopen fclose fileno mkstemp mkstemp64:mkstemp
malloc calloc realloc reallocarray free strdup strndup posix_memalign aligned_alloc
exit _exit:exit _Exit:exit abort __assert_fail getenv secure_getenv getpid getppid
clock_gettime time gettimeofday usleep sleep nanosleep clock_nanosleep
socket bind accept accept4 setsockopt send recv sendto recvfrom sendmsg stdin stdout stderr printf vprintf puts putchar fflush
curl_global_init curl_global_cleanup curl_easy_init curl_easy_cleanup curl_easy_reset curl_easy_setopt curl_easy_getinfo
curl_easy_strerror curl_easy_perform ZSTD_createDStream ZSTD_createDCtx ZSTD_freeDStream ZSTD_freeDCtx
EVP_CIPHER_CTX_new EVP_CIPHER_CTX_free'''.split()

# second names of a function
DEFSYM = ['-Wl,--defsym=mc_%s=mc_%s' % tuple(w.split(':')) for w in WRAP if ':' in w]

# -Wno-*: warnings of the program are not our business
CFLAGS = ('-std=gnu11 -O1 -g -fno-omit-frame-pointer -fno-pie -fexceptions -fno-common -U_FORTIFY_SOURCE -w '
          '-fsanitize=address,undefined -fsanitize=float-cast-overflow -fno-sanitize-recover=all').split() + ['-Daligned(x)=aligned((x) > 32 ? 32 : (x))'] # beyond 32, ASan leaves out the red zone
# without sanitizers, for those that process gigabytes
FAST = {'C22'}
FASTFLAGS = '-std=gnu11 -O2 -g -fno-pie -fexceptions -fno-common -U_FORTIFY_SOURCE -w'.split()
CXXFLAGS = '-std=c++17 -O2 -g -fno-pie -fno-strict-aliasing -Wall -Wextra -Wno-missing-field-initializers -Wno-stringop-overflow'.split()
PROGS = {'csn': 'csn', 'tool': 'csn-tool', 'patchdd': 'patchdd'}
DEFAULT_SRC = {
    'csn': 'log utils chunk chunker caibx sha store store-local store-http index target ui main encrypt',
    'tool': 'log utils csn-tool encrypt',
    'patchdd': 'log utils ui patchdd',
}

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write('command failed: %s\n%s\n' % (' '.join(cmd), r.stdout))
        sys.exit(2)
    return r.stdout

def sources():
    """source files of the three programs, as the repository's build system lists them"""
    txt = ''
    try:
        txt = re.sub(r'#[^\n]*', '', open(os.path.join(REPO, 'CMakeLists.txt')).read())
    except OSError:
        pass
    out = {}
    for k, name in PROGS.items():
        m = re.search(r'add_executable\s*\(\s*%s\s+([^)]*)\)' % re.escape(name), txt)
        files = [f for f in (m.group(1).split() if m else []) if f.endswith('.c')]
        if not files or any(not os.path.exists(os.path.join(REPO, f)) for f in files):
            files = [f + '.c' for f in DEFAULT_SRC[k].split()]
        out[k] = files
    return out

def h(*parts):
    x = hashlib.sha256()
    for p in parts:
        x.update(p if isinstance(p, bytes) else p.encode())
        x.update(b'\0')
    return x.hexdigest()[:20]

def rd(p):
    with open(p, 'rb') as f:
        return f.read()

def prune():
    """keep the cache small"""
    fs = []
    for d in ('o', 'bin'):
        p = os.path.join(B, d)
        if os.path.isdir(p):
            fs += [os.path.join(p, f) for f in os.listdir(p)]
    fs.sort(key=lambda f: os.path.getmtime(f), reverse=True)
    size = 0
    for f in fs:
        size += os.path.getsize(f)
        if size > 1500 * 2**20:
            os.unlink(f)

def touch(p):
    os.utime(p)

def compile_sut(fast=False):
    cflags, tag = (FASTFLAGS, 'fast') if fast else (CFLAGS, 'sut')
    src = sources()
    headers = b''.join(rd(os.path.join(r, f)) for r, ds, fs in sorted(os.walk(REPO))
                       if not any(x in r for x in ('/.git', '/_build', '/test')) for f in sorted(fs) if f.endswith('.h'))
    hk = h(headers, ' '.join(cflags), 'v4')
    jobs = {}
    for k, files in src.items():
        for f in files:
            p = os.path.join(REPO, f)
            key = h(rd(p), f, hk)
            jobs[f] = (p, os.path.join(B, 'o', tag + '-%s-%s.o' % (os.path.basename(f)[:-2], key)), key)

    def one(f):
        p, o, key = jobs[f]
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            sh(['gcc'] + cflags + ['-I', REPO, '-c', p, '-o', t])
            os.rename(t, o)
        else:
            touch(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))

    objs = []
    redef = os.path.join(B, 'redefine.%d' % os.getpid())
    for k, files in src.items():
        key = h(k, *[jobs[f][2] for f in files], ' '.join(WRAP), rd(os.path.join(MC, 'sut.ld')))
        o = os.path.join(B, 'o', 'prog-%s-%s.o' % (k, key))
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            ld = t + '.ld'
            with open(ld, 'w') as fo:
                fo.write(open(os.path.join(MC, 'sut.ld')).read().replace('@SEG@', 'sutdata_' + k))
            with open(redef, 'w') as fo:
                for w in WRAP:
                    a, _, b = w.partition(':')
                    fo.write('%s mc_%s\n' % (a, a))
                fo.write('main sut_%s_main\n' % k)
            sh(['ld', '-r', '-d', '-T', ld, '-o', t] + [jobs[f][1] for f in files])
            sh(['objcopy', '--redefine-syms=' + redef, t])
            sh(['objcopy', '--keep-global-symbol=sut_%s_main' % k, t])
            os.unlink(ld)
            os.unlink(redef)
            os.rename(t, o)
        else:
            touch(o)
        objs.append(o)
    return objs

def compile_mc(names):
    hdrs = b''.join(rd(os.path.join(MC, f)) for f in sorted(os.listdir(MC)) if f.endswith(('.h', '.inc')))
    out = {}

    def one(n):
        p = os.path.join(MC, n + '.cc')
        key = h(rd(p), hdrs, ' '.join(CXXFLAGS), n)
        o = os.path.join(B, 'o', 'mc-%s-%s.o' % (n, key))
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            sh(['g++'] + CXXFLAGS + ['-c', p, '-o', t])
            os.rename(t, o)
        else:
            touch(o)
        out[n] = o
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, names))
    return out

def build_all(props):
    os.makedirs(os.path.join(B, 'o'), exist_ok=True)
    os.makedirs(os.path.join(B, 'bin'), exist_ok=True)
    lock = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(build, props), ex.submit(build_plain)
        return a.result(), b.result()

def build(props):
    common = ['rt_env', 'rt_explore', 'ref', 'world', 'real']
    with ThreadPoolExecutor(2) as ex:
        fs = ex.submit(lambda: {f: compile_sut(f) for f in sorted({p in FAST for p in props})})
        fm = ex.submit(compile_mc, common + ['p_' + p for p in props])
        sut, mc = fs.result(), fm.result()
    exes = []
    for p in props:
        objs = [mc[c] for c in common] + [mc['p_' + p]] + sut[p in FAST]
        exe = os.path.join(B, 'bin', 'mc-%s-%s' % (p, h(' '.join(DEFSYM), *objs)))
        if not os.path.exists(exe):
            t = exe + '.tmp'
            sh(['g++', '-no-pie', '-fsanitize=address,undefined', '-o', t] + objs + DEFSYM + ['-lcurl', '-lzstd', '-lcrypto', '-lpthread'])
            os.rename(t, exe)
        else:
            touch(exe)
        exes.append(exe)
    prune()
    return exes

def build_plain():
    """the programs as they are, without any interposition (for runs in the real environment)"""
    src = sources()
    headers = b''.join(rd(os.path.join(r, f)) for r, ds, fs in sorted(os.walk(REPO))
                       if not any(x in r for x in ('/.git', '/_build', '/test')) for f in sorted(fs) if f.endswith('.h'))
    objs, out = {}, {}
    def one(f):
        key = h(headers, rd(os.path.join(REPO, f)), f)
        o = os.path.join(B, 'o', 'plain-%s-%s.o' % (os.path.basename(f)[:-2], key))
        if not os.path.exists(o):
            t = o + '.%d.tmp' % os.getpid()
            sh(['gcc', '-std=gnu11', '-O1', '-w', '-I', REPO, '-c', os.path.join(REPO, f), '-o', t])
            os.rename(t, o)
        else:
            touch(o)
        objs[f] = o
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, sorted(set(sum(src.values(), [])))))
    for k, files in src.items():
        os_ = [objs[f] for f in files]
        d = os.path.join(B, 'bin', 'plain-%s-%s' % (k, h(*os_)))
        if not os.path.exists(d):
            t = d + '.tmp'
            sh(['gcc', '-o', t] + os_ + ['-lcurl', '-lzstd', '-lcrypto', '-lm'])
            os.rename(t, d)
        else:
            touch(d)
        out[k] = d
    return out

if __name__ == '__main__':
    e, pl = build_all(sys.argv[1:])
    print('\n'.join(e + list(pl.values())))
