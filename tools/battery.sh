#!/bin/bash
# battery.sh [names, several at once joined with +]: applies each behaviour-preserving edit in turn to /repo (use a
# private copy: it checks out and cleans) and runs the checks; prints those not quiet
mkdir -p ${OUT:=/tmp/battery}
cd /verif
for r in ${@:-$(python3 /verif/tools/refactor.py --list)}; do
  git -C /repo checkout -q -- . ; git -C /repo clean -fdq
  for one in ${r//+/ }; do python3 /verif/tools/refactor.py $one /repo || { echo "$one APPLY"; continue 2; }; done
  s=$(date +%s); bad=
  list="C01 C02 C03 C04 B01 B02 B03 N01 N02 S01 S02 S03 S04 L01 L02 L03 L04 M01 M02 X01 P04 R01 R03 R04 A01 A02"
  files=$(git -C /repo status --porcelain | awk '{print $2}')
  case "$files" in *v1/*|*v2/*) list="$list P01 P02 P03";; esac
  case "$files" in *v3/*) list="$list R02 G01";; esac
  case "$files" in *generation/*) list="$list G01 G02 G03 G04";; esac
  case "$files" in *v?/*) ;; *) list="G01 G02 G03 G04";; esac
  for i in $list; do
        timeout 900 python3 check.py $i > ${OUT:=/tmp/battery}/o.$r.$i 2>&1; rc=$?
    if [ $rc != 0 ]; then bad="$bad $i($rc)"; else mv ${OUT:=/tmp/battery}/o.$r.$i ${OUT:=/tmp/battery}/last.$i; fi
  done
  echo "$r $(( $(date +%s)-s ))s bad:[$bad]"
done
