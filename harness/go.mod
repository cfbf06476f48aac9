module vbspcheck

go 1.24
