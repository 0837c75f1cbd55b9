------------------------------ MODULE QueuesMC -------------------------------
EXTENDS Queues
NoNames == {}
N(p, u, t, q) == [pre |-> p, unit |-> u, times |-> t, post |-> q]
AllNames == {N("my-bucket", "", 0, ""), N("My_Bucket.Name", "", 0, ""), N("a--", "_", 4, "b"), N("-", "lead", 1, "-"), N("__", "A", 3, "__"), N("abc", "-", 60, "d"),
             N("", "a", 62, ""), N("", "a", 63, ""), N("", "a", 64, ""), N("", "b", 63, "-"), N("", "ab-", 21, "x"), N("", "ab-", 18, "abcdefghijkl"), N("", "a", 53, "-bbbbbbbbbbbbbbb"), N("", "a", 54, "-bbbbbbbbbbbbbb"), N("", "a", 55, "-stack-one-dlq"), N("", "a", 55, "-stack-two-dlq"),
             N("", "a", 55, "-stack_two-dlq"), N("", "a", 55, "-Stack-two-dlq"), N("", "a", 100, ""), N("", "a", 101, ""), N("X", ".Y", 40, ".Z"), N("MarineTest-T-", "x", 49, "-DLQ"), N("MarineTest-T-", "x", 46, "-DLQ")}
=============================================================================
