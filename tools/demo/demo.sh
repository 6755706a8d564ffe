#!/bin/bash
# Builds the service's sources with a stand-in for libwbmqtt1 and runs the scenario in demo.cpp. Exit 0: as it should be.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
F="-std=c++20 -O0 -w -pthread -DWBMQTT_COMMIT=\"x\" -DWBMQTT_VERSION=\"0\" -I$R/src -I$D/stub -I$D/stub/gurux -I$D"
cc() { g++ $F -c "$1" -o "$W/$(echo "$1" | md5sum | cut -c1-16).o" 2>"$W/err.$$.$RANDOM" || { echo "cannot compile $1"; cat $W/err.*; touch "$W/failed"; }; }
export -f cc; export F W
{ find "$R/src" -name '*.cpp' ! -name dlms_device.cpp ! -path "$R/src/main.cpp"; find "$D/stub" -name '*.cpp'; ls "$D"/*.cpp; } | xargs -P 8 -I{} bash -c 'cc {}'
[ -e "$W/failed" ] && exit 3
g++ -pthread -o "$W/demo" "$W"/*.o -ldl || exit 3
timeout 120 "$W/demo"
