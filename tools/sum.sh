#!/bin/bash
# development helper: run a check and list every violation signature once
VMON_SUMMARY=1 /verif/run.sh "$@" | grep -v '^VIOLATION\|^  case'
