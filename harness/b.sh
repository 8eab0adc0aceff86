. /opt/vp/env.sh; python3 /verif/sync.py; cd /verif/harness; $CARGO build --offline 2>&1 | grep -E "^error|^  -->|Finished|warning: unused" -A5 | head -${1:-40}
