INIT Init
NEXT Next
INVARIANTS Consistent Detected Rejected NoSuccess Fair Attributed Sane Decided Secret Agreed Completes
VIEW View
