#!/bin/bash
cd "$(dirname "$0")"; exec ./run.sh all "${1:-quick}"
