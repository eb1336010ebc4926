cd /verif
N=${1:-6000}; SC=${2:-100}; S=${3:-3}
L="C01 C02 C03 C04 C05 C06 C07 C08 C13 C14 C15 C19 C20 $4"
for c in $L; do (build/simworker -check $c -seed $S -from 0 -to $N -budget-ms 60000 -maxviol 100000 -selfcheck $SC -out /tmp/o$c.json) & done; wait; for c in $L; do echo "== $c"; python3 /tmp/show.py /tmp/o$c.json 2 | cut -c1-500; done
