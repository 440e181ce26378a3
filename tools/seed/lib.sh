S=/verif/seeded; W=/tmp/wt
demo(){ mkdir -p $S/$1; { printf 'package zdemo\n\n'; cat; } > $S/$1/demo_test.go; PATH=/opt/veriftools/go1.23.12/bin:$PATH gofmt -l $S/$1/demo_test.go; }
mk(){ python3 /verif/tools/seed/seed.py make "$@"; }
try(){ python3 /verif/tools/seed/seed.py try "$@"; }
