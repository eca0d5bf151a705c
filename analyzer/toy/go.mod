module toy

go 1.18
