cd /verif
(python3-vt dev/all.py | grep -v " held") > /tmp/t0 &
(tcase c1 c2 c3 c4 c5 c6 c7) > /tmp/t1 & (tcase c8 c9 c10 c11 c12 )>/tmp/t2 & tcase $(cd dev/cases; ls c1[3-9].py c2?.py 2>/dev/null | sed 's/.py//') > /tmp/t3; wait; cat /tmp/t0 /tmp/t1 /tmp/t2 /tmp/t3 | grep -v "^--" | grep -vE "^(c14 |)(flat loop|flags|flagsnp|set|idx|flags bug|flags bug3|run mean|reduce) +C"
