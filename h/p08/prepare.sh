exec bash "$(dirname "$0")/../gen.sh" ctl3 ctl2
