exec bash "$(dirname "$0")/../gen.sh"
