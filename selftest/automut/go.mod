module automut

go 1.22
