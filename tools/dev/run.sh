bash /tmp/b.sh && cp /verif/known_findings.jsonl /tmp/sc/ 2>/dev/null; shift 0; timeout 900 /tmp/sc/worker -verif /tmp/sc "$@" | cut -c1-1500
