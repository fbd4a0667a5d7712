#!/bin/bash
# Builds the simulator against /repo's current working tree, in $1 (default
# /verif/build).  Nothing is written in /repo.
D=$(dirname "$(readlink -f "$0")"); R=${PICOBAT_REPO:-/repo}; B=${1:-$D/../build}
unset MAKEFLAGS MFLAGS CFLAGS LDFLAGS CC AR RANLIB
set -e
mkdir -p $B; B=$(readlink -f $B)
exec 9>$B/lock; flock 9
rm -rf $B/src; mkdir -p $B/src $B/sim
for d in $R/*; do case $d in */_build|*/bin|*/tests) ;; *) cp -a $d $B/src/;; esac; done
# products of a build made inside /repo itself must not leak into ours
find $B/src \( -name '*.o' -o -name '*.a' -o -name femto-config.mk \) -delete
rm -f $B/src/libfasteval/lib/{scanner.c,parser.c,parser.h} $B/src/pbat/pbat $B/src/config.h
export LC_ALL=C
{ cd $B/src && make CC=gcc config >/dev/null 2>&1 && sed -i 's/#define __YEAR__ .*/#define __YEAR__ "2026"/; s/picobat [0-9.]*"/picobat 226.11"/; s/PACKAGE_VERSION *".*/PACKAGE_VERSION "226.11"/' config.h; } || { echo "config failed"; exit 2; }
simobjs() { for f in $D/*.cc; do o=$B/sim/$(basename ${f%.cc}).o; if [ ! -e $o ] || [ $f -nt $o ] || [ -n "$(find $D -name '*.h' -newer $o)" ]; then echo "$o $f"; fi; done | xargs -r -P 8 -n 2 sh -c 'g++ -std=c++17 -g -O2 -fno-pie -Wall -Wno-unused-result -Wno-misleading-indentation -fno-omit-frame-pointer -c -o $0 $1 || { rm -f $0; exit 255; }'; }
simobjs & sp=$!
fail() { echo "build failed: $1"; grep -E -A3 'error|undefined|Error' $B/make.log | head -40; exit 2; }
: > $B/make.log
# libfasteval needs one job (flex/bison)
(cd $B/src && make -j1 CC=$D/cc -C libfasteval >> $B/make.log 2>&1) & p1=$!
(cd $B/src && make -j4 CC=$D/cc -C microgettext >> $B/make.log 2>&1 && make -j4 CC=$D/cc -C libpbat >> $B/make.log 2>&1) & p2=$!
wait $p1 || fail libfasteval
wait $p2 || fail libpbat
(cd $B/src && make -j8 CC=$D/cc -C pbat >> $B/make.log 2>&1) || fail pbat
wait $sp || { echo "simulator build failed"; exit 2; }
WRAPS=; for s in __read __read_nocancel __write __write_nocancel __open __open_nocancel __open64 __open64_nocancel __close __close_nocancel __lseek64 __lseek __fstat64 __isatty __fcntl _exit __lll_lock_wait_private __lll_lock_wake_private; do WRAPS="$WRAPS -Wl,--wrap=$s"; done
g++ -g -static -no-pie -o $B/psim.tmp $B/sim/*.o $(find $B/src/pbat -name '*.o') $B/src/libpbat/*.a $B/src/libfasteval/*.a $B/src/microgettext/*.a $WRAPS -lpthread -lm > $B/link.log 2>&1 || { grep -v warning $B/link.log | head -20; exit 2; }
mv $B/psim.tmp $B/psim
