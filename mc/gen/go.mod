module verifgen

go 1.20
