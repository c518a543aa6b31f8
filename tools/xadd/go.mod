module zzverif.local/xadd

go 1.23
