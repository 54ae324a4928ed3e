exec bash "$(dirname "$0")/../gen.sh" ctl3 ctl2 par3 par2
