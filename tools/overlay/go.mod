module verifoverlay

go 1.21
