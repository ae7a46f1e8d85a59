module insttool

go 1.22
