module vrt

go 1.21
