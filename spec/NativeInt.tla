------------------------------ MODULE NativeInt -----------------------------
(* TLC's native integers (32 bit, overflow is an error) as operands of      *)
(* FixSem.                                                                  *)
EXTENDS Integers
IOf(n) == n
IAdd(x, y) == x + y
ISub(x, y) == x - y
IMul(x, y) == x * y
INeg(x) == -x
ICmp(x, y) == IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
IShl(x, k) == x * 2^k
IFlr(x, k) == x \div 2^k
ILow(x, k) == x % 2^k
IOdd(x) == x % 2 = 1
=============================================================================
