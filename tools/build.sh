#!/bin/bash
# Builds the driver from /repo's working tree.  usage: build.sh asan|tsan|plain|cov  -> prints the path of the driver
# The library's objects keep their own code; only their references to libc calls are redirected to the simulated system.
set -e
V=$(cd "$(dirname "$0")/.." && pwd); R=${VERIF_REPO:-/repo}; KIND=${1:-asan}
CC=clang; CXX=clang++
case $KIND in
asan) SAN="-fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=pattern"; OPT="-g -O1" ;;
asan0) SAN="-fsanitize=address,undefined -fno-sanitize-recover=all -ftrivial-auto-var-init=zero"; OPT="-g -O1" ;;
tsan) SAN="-fsanitize=thread"; OPT="-g -O1" ;;
plain) SAN=""; OPT="-g -O2" ;;
cov) SAN="-fprofile-instr-generate -fcoverage-mapping"; OPT="-g -O0" ;;
*) exit 2 ;;
esac
# The harness runs uninstrumented in the ASan builds: it only has to be fast, and what it does with the library's
# memory goes through memcpy/malloc/free, which the runtime intercepts anyway.
HSAN=$SAN; LSAN=$SAN; HOPT=${OPT/-O0/-O1}
case $KIND in asan|asan0) HSAN=""; HOPT="-g -O2"; LSAN="-fsanitize=address,undefined -fno-sanitize-recover=all" ;; esac
SRCS=$(make -s -C "$R" print_obj 2>/dev/null | tr ' ' '\n' | grep '\.o$' | sed 's/\.o$/.c/')
[ -n "$SRCS" ] || { echo "no sources" >&2; exit 2; }
mkdir -p "$V/build"
KEY=$( (echo "$KIND $SAN $OPT"; cat "$R"/*.c "$R"/*.h "$R/Makefile" "$V"/harness/* "$0"; echo $SRCS) | sha256sum | cut -c1-20)
D=$V/build/$KIND-$KEY
exec 9>"$V/build/.lock"; flock 9
if [ ! -x "$D/vd" ]; then
    # Old builds go; the few most recent stay.
    ls -1dt "$V"/build/$KIND-* 2>/dev/null | tail -n +4 | while read -r o; do case "$o" in "$V"/build/*-*) rm -rf "$o";; esac; done
    rm -rf "$D.tmp"; mkdir -p "$D.tmp"
    HKEY=$( (echo "$KIND $HSAN $HOPT"; cat "$R"/*.h "$V"/harness/*; cat "$0") | sha256sum | cut -c1-20)
    H=$V/build/h-$KIND-$HKEY
    CF="-fno-omit-frame-pointer -D_GNU_SOURCE -I$R -I$V/harness -w"
    for f in socket setsockopt getsockopt bind listen getsockname getpeername connect accept accept4 fcntl fcntl64 ioctl shutdown close \
        sendmsg sendmmsg sendto send write writev recvfrom recv read readv recvmsg recvmmsg poll ppoll select usleep sleep nanosleep clock_gettime gettimeofday time signal sigaction \
        malloc calloc free realloc reallocarray aligned_alloc posix_memalign strdup strndup exit _exit abort __assert_fail perror rand_r; do
        t=$f
        echo "$f vf_$t"
    done > "$D.tmp/redef"
    pids=()
    for s in $SRCS "$V/harness/list_inst.c"; do
        ( o=$D.tmp/$(basename "$s" .c).o; $CC $OPT $SAN $CF -c "$s" -o "$o" && objcopy --redefine-syms="$D.tmp/redef" "$o" ) & pids+=($!)
    done
    if [ ! -d "$H" ]; then
        ls -1dt "$V"/build/h-$KIND-* 2>/dev/null | tail -n +4 | while read -r o; do case "$o" in "$V"/build/h-*) rm -rf "$o";; esac; done
        rm -rf "$H.tmp"; mkdir -p "$H.tmp"
        for s in "$V"/harness/*.cpp; do
            ( $CXX -std=c++17 $HOPT $HSAN $CF -c "$s" -o "$H.tmp/$(basename "$s" .cpp).o" ) & pids+=($!)
        done
    fi
    for p in "${pids[@]}"; do wait $p || { echo "build failed" >&2; exit 2; }; done
    [ -d "$H.tmp" ] && mv "$H.tmp" "$H"
    $CXX $OPT $LSAN "$D.tmp"/*.o "$H"/*.o -o "$D.tmp/vd" -lpthread
    mv "$D.tmp" "$D"
fi
echo "$D/vd"
