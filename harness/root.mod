module github.com/Breeze0806/gobinlog

go 1.21

require (
	github.com/Breeze0806/go v0.0.0-20210513031655-61a934305111
	github.com/Breeze0806/mysql v1.4.2
	github.com/go-sql-driver/mysql v1.6.0
	google.golang.org/appengine v1.6.7 // indirect
)

replace github.com/Breeze0806/go => /verif/harness/stubs/go
