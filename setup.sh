#!/bin/bash
. /verif/env.sh
cd /verif/harness && cargo build --release --offline
