module verif.local/vsched

go 1.19
