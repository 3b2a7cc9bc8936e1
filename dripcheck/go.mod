module dripcheck

go 1.22
