module verifhook

go 1.21
