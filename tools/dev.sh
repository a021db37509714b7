#!/bin/bash
# dev.sh PID [timeout per harness] [harness...]: runs some or all harnesses of a check without replay
pid=$1; to=${2:-120}; shift; shift
only=$(IFS=,; echo "$*")
cd /verif
VERIF_NO_REPLAY=1 VERIF_HARNESS_TIMEOUT=$to VERIF_NO_STOP=1 VERIF_NO_EVIDENCE=1 python3 check.py $pid ${only:+--only $only}
