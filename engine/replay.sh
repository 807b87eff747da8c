#!/bin/bash
# replay.sh BINARY CEX: exit 1 if the counterexample is reproduced on the natively compiled code (assertion, crash, sanitizer report or hang)
s=$(mktemp -d "${TMPDIR:-/tmp}/vfreplay.XXXXXX")
VF_SCRATCH=$s ASAN_OPTIONS=exitcode=77:detect_leaks=0:abort_on_error=0 UBSAN_OPTIONS=halt_on_error=1:exitcode=77 MSAN_OPTIONS=exitcode=77 timeout -k 2 "${VF_TIMEOUT:-25}" "$1" "$2"
rc=$?
rm -rf "$s"
if [ $rc = 0 ]; then exit 0; fi
case $rc in
  1) ;;
  124|137) [ -n "$VF_MEM" ] && exit 0; echo "REPRODUCED: does not terminate within ${VF_TIMEOUT:-25} s" ;;
  77) echo "REPRODUCED: sanitizer report" ;;
  *) echo "REPRODUCED: terminated with status $rc" ;;
esac
exit 1
