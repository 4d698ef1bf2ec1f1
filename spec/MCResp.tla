------------------------------ MODULE MCResp ------------------------------
(* Alphabets for Resp.tla *)
EXTENDS Resp
Bytes == {"+", "-", ":", "$", "*", "%", "\r", "\n", "0", "1", "2", "a", "~"}
Few == {"$", "*", "-", "1", "\r\n", "a", "+"}
Parts == {"+", "-", ":", "$", "*", "%", "\r\n", "\r", "\n", "0", "1", "2", "3", "a", "~", "-1\r\n"}
Words == {"*0\r\n", "*1\r\n", "*2\r\n", "*3\r\n", "%0\r\n", "%1\r\n", "%2\r\n", "$0\r\n\r\n", "$1\r\na\r\n", "$2\r\n\r\n\r\n",
          "$3\r\na~b\r\n", "$-1\r\n", "+\r\n", "+ab\r\n", "-ERR x\r\n", ":0\r\n", ":12\r\n", ":18446744073709551615\r\n"}
Odd == {"*1\r\n", "%1\r\n", "*2\r\n", "$1\r\na\r\n", "+a\r\n", ":1\r\n", "$2\r\na\r\n\r\n", "$1\r\naX\r", "$1\r\naXY", "$-2\r\n", "$-1\r\n", "$-1x\r\n", "$-12\r\n",
        "*-1\r\n", "%-1\r\n", ":-1\r\n", ":1.5\r\n", ":01\r\n", ":+1\r\n", "+a\rb\r\n", "+a\nb\r\n", "+~\r\n", "-~\r\n", "*01\r\n", "*\r\n", "$\r\n",
        ":\r\n", "$01\r\na\r\n", "*18446744073709551616\r\n", "$18446744073709551615\r\n", "%9223372036854775808\r\n", ":18446744073709551616\r\n",
        "*9999999\r\n", "$9999999\r\n", "x", "\r\n", "_\r\n", "#t\r\n", "!1\r\n", "*1 \r\n", "* 1\r\n", "$1\n", "*1\n", "*1\r"}
RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN "" ELSE c \o Rep(c, n - 1)
\* every number of digits, and lengths around powers of two and of ten
Sized == {":" \o SubSeq("12345678901234567890", 1, k) \o "\r\n" : k \in 1..20}
    \cup {":" \o Rep("9", k) \o "\r\n" : k \in {1, 2, 8, 15, 16, 17, 19, 20}}
    \cup {"$" \o ToString(n) \o "\r\n" \o Rep("a", n) \o "\r\n" : n \in {3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101}}
    \cup {"+" \o Rep("b", n) \o "\r\n" : n \in {1, 15, 16, 17, 64}}
    \cup {"*2\r\n", "%1\r\n", "*10\r\n" \o Rep(":7\r\n", 9), "*11\r\n" \o Rep("$-1\r\n", 10), "%5\r\n" \o Rep("+k\r\n:1\r\n", 4) \o "+z\r\n"}
\* nesting
Deep == {"*1\r\n", Rep("*1\r\n", 7), Rep("%1\r\n+k\r\n", 5), Rep("*2\r\n:1\r\n", 9), Rep("*1\r\n", 30), "%1\r\n", ":1\r\n", "*0\r\n"}
=============================================================================
