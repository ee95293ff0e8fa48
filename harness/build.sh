#!/bin/bash
# build.sh <prop> : builds build/<prop> from /repo's current tree and the harness
set -eu
V=$(cd "$(dirname "$0")/.." && pwd); H=$V/harness; B=${VP_BUILD:-$V/build}; R=${VP_REPO:-/repo}
P=$1
RO=repo; COV=
case $P in C19|C20) RO=repo-s; COV="-fsanitize-coverage=trace-loads,trace-stores" ;; esac # every shared access is a scheduling point
mkdir -p "$B/$RO" "$B/h"
SAN="-fsanitize=address,undefined -fno-sanitize=alignment,function -fno-sanitize-recover=all -fno-omit-frame-pointer"
VER=$(sed -n 's/^ *#* *set(OPENELP_\(MAJOR\|MINOR\|PATCH\)_VERSION \([0-9]*\)).*/\2/p' $R/CMakeLists.txt $R/cmake/*.cmake 2>/dev/null | tr '\n' '.' | sed 's/\.$//'); [ -n "$VER" ] || VER=0.9.4
DEFS="-DOPENELP_MAJOR_VERSION=0 -DOPENELP_MINOR_VERSION=9 -DOPENELP_PATCH_VERSION=4 -DOPENELP_VERSION=$VER-dev -DOPENELP_EXTRA_VERSION=dev -DOPENELP_CONFIG_HINT=../etc/ELProxy.conf -DPCRE2_CODE_UNIT_WIDTH=8 -DHAVE_SYSLOG=1"
for s in $(cat $H/syms.txt); do echo "$s vp_$s"; done > "$B/redef.$$"
trap 'rm -f "$B/redef.$$"' EXIT
pids=()
srcs=$(cd $R/src && ls *.c | grep -v -e '_win\.c$' -e '^conn_wsa_errno\.c$' -e '^service\.c$' -e '^proxyd\.c$')
rm -f "$B"/$RO/*.o
for f in $srcs; do
  ( clang -std=gnu90 -w -O1 -g $SAN $COV -I$R/include $DEFS -c $R/src/$f -o "$B/$RO/${f%.c}.tmp.o" && objcopy --redefine-syms="$B/redef.$$" "$B/$RO/${f%.c}.tmp.o" "$B/$RO/${f%.c}.o" && rm -f "$B/$RO/${f%.c}.tmp.o" ) & pids+=($!)
done
if [ $P = C23 ]; then # the real daemon; only syslog is replaced, by a file
  mkdir -p "$B/daemon"; rm -f "$B"/daemon/*.o
  for f in $srcs proxyd.c; do ( clang -std=gnu90 -w -O1 -g $SAN -I$R/include $DEFS -Dopenlog=vpd_openlog -Dsyslog=vpd_syslog -Dvsyslog=vpd_vsyslog -Dcloselog=vpd_closelog -c $R/src/$f -o "$B/daemon/${f%.c}.o" ) & pids+=($!); done
  ( clang -w -O1 -g -c $H/daemon_syslog.c -o "$B/daemon/daemon_syslog.o" ) & pids+=($!)
fi
if [ $P = C26 ]; then # the library in a process of its own, under ThreadSanitizer
  mkdir -p "$B/race"; rm -f "$B"/race/*.o
  for f in $srcs; do ( clang -std=gnu90 -w -O1 -g -fsanitize=thread -I$R/include $DEFS -c $R/src/$f -o "$B/race/${f%.c}.o" ) & pids+=($!); done
  ( clang -w -O1 -g -fsanitize=thread -I$R/include -c $H/race_host.c -o "$B/race/race_host.o" ) & pids+=($!)
  ( clang -w -O1 -g -c $H/race_wrap.c -o "$B/race/race_wrap.o" ) & pids+=($!)
fi
deps="$H/core.hpp $H/shim.hpp $H/world.hpp $H/common.hpp $H/conf_gen.hpp $H/registrar.hpp $H/sched.hpp"
for f in core shim sched world "p_$P"; do
  o="$B/h/$f.o"; stale=0
  [ -f "$o" ] || stale=1
  for d in $H/$f.cpp $deps; do [ ! -e "$d" ] || [ ! "$d" -nt "$o" ] || stale=1; done
  [ "$f" != "p_$P" ] || stale=1
  if [ $stale = 1 ]; then ( clang++ -std=c++17 -w -O1 -g $SAN -iquote $R/include -iquote $H -c $H/$f.cpp -o "$o.$$" && mv "$o.$$" "$o" ) & pids+=($!); fi
done
for p in "${pids[@]}"; do wait $p; done
clang++ $SAN "$B/h/core.o" "$B/h/shim.o" "$B/h/sched.o" "$B/h/world.o" "$B/h/p_$P.o" $(for f in $srcs; do echo "$B/$RO/${f%.c}.o"; done) -lpthread -lpcre2-8 -o "$B/$P"
if [ $P = C23 ]; then clang $SAN $(for f in $srcs proxyd.c; do echo "$B/daemon/${f%.c}.o"; done) "$B/daemon/daemon_syslog.o" -lpthread -lpcre2-8 -o "$B/openelpd"; fi
if [ $P = C26 ]; then clang -fsanitize=thread "$B"/race/*.o -lpthread -lpcre2-8 $(for s in pthread_mutex_lock pthread_mutex_unlock pthread_cond_broadcast pthread_cond_signal send recvfrom connect shutdown close getaddrinfo; do echo -Wl,--wrap=$s; done) -o "$B/racehost"; fi
