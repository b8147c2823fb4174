module vh

go 1.21

require (
	github.com/Breeze0806/go v0.0.0-20210513031655-61a934305111
	github.com/Breeze0806/gobinlog v0.0.0
	github.com/Breeze0806/mysql v1.4.2
)

require (
	github.com/go-sql-driver/mysql v1.6.0 // indirect
	google.golang.org/appengine v1.6.7 // indirect
)

replace github.com/Breeze0806/go => ./stubs/go

replace github.com/Breeze0806/gobinlog => /repo
