. /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
