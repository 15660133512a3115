#!/bin/sh
LD_LIBRARY_PATH=/opt/ngs/6.2.2405/lib:/opt/ngs/6.2.2405/lib/python3.12/site-packages/netgen_mesher.libs exec ${NGSAMG_SIM_BUILD:-/verif/build}/simrun "$@"
