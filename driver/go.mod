module vsimdriver

go 1.27
