exec bash "$(dirname "$0")/../gen.sh" enc3 enc2
