#!/bin/sh
# tv.sh MODULE TRACE [LINES]: validate one trace and show why it is rejected
d=$(cd "$(dirname "$0")" && pwd); o=$(TRACE=$(realpath $2) "$d/tlc.sh" $1 $1)
echo "$o" | grep -n "rror\|REJECTED\|ACCEPTED\|ttempted\|exception" -A3 | grep -v "^[0-9]*-[0-9]*\. \|State" | cut -c1-300 | head -${3:-30}
k=$(echo "$o" | sed -n 's/.*<<"REJECTED", \([0-9]*\)>>.*/\1/p'); [ -z "$k" ] && k=$(echo "$o" | sed -n 's/^The depth of the complete state graph search is \([0-9]*\).*/\1/p')
echo "line $k:"; sed -n "${k}p" $2 | cut -c1-1500
