------------------------------ MODULE MCHelpers ------------------------------
\* Byte arrays of up to four bytes of two bits, under every short history.
EXTENDS PSHelpers
VARIABLES len, sum, given
hvars == <<arr, len, sum, given>>
Init == arr = <<>> /\ len = 0 /\ sum = 0 /\ given = <<>>
Make == /\ len = 0
        /\ \E n \in 1..4, x \in Byte : NewArr(n, x) /\ len' = n /\ given' = Rep(n, x)
        /\ UNCHANGED sum
Write == /\ len > 0 /\ sum = 0
         /\ \E i \in 0..(len - 1), b \in Byte : Put(i, b) /\ given' = [given EXCEPT ![i + 1] = b]
         /\ UNCHANGED <<len, sum>>
Shift == /\ len > 0
         /\ \E k \in 0..(len - 1) : ShiftBy(k) /\ sum' = Min(len, sum + k)
         /\ UNCHANGED <<len, given>>
Next == Make \/ Write \/ Shift
Spec == Init /\ [][Next]_hvars
\* Several shifts are one by the sum, the length never changes, and every byte that
\* remains is where it was, moved.
Length == Len(arr) = len
Moved == len > 0 => \A i \in 1..len : arr[i] = IF i <= sum THEN 0 ELSE given[i - sum]
Smallest == \A n \in 1..64 : MarkerBytes(n) * BYTE >= n /\ (MarkerBytes(n) - 1) * BYTE < n /\ (FillsBytes(n) <=> MarkerBytes(n) * BYTE = n)
=============================================================================
