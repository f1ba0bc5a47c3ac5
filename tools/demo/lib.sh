# helpers of the demonstrations: run the built binary in a scratch folder
HIBOU="$PWD/target/debug/hibou_label"
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT; cd "$W" || exit 3
printf '%s\n' '@message{m;n}' '@lifeline{a;b;c}' > s.hsf
bad=0
# verdict <interaction> <trace> [configuration]
verdict() {
  echo "$1" > i.hif; echo "$2" > t.htf
  if [ -n "$3" ]; then echo "$3" > c.hcf; timeout 60 "$HIBOU" analyze s.hsf i.hif t.htf c.hcf > out.txt 2>&1; else timeout 60 "$HIBOU" analyze s.hsf i.hif t.htf > out.txt 2>&1; fi
  sed -n "s/.*verdict *: '\([A-Za-z]*\).*/\1/p" out.txt
}
# expect <what> <wanted> <got>
expect() { if [ "$2" = "$3" ]; then echo "ok: $1: $3"; else echo "WRONG: $1: wanted '$2', got '$3'"; bad=1; fi; }
