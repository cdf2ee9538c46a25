module verifharness

go 1.27

require (
	github.com/weedbox/pokercompetition v0.0.0
	github.com/weedbox/pokertable v0.1.83
	github.com/weedbox/pokerface v0.1.10
	github.com/google/uuid v1.3.1 // indirect
	github.com/thoas/go-funk v0.9.3 // indirect
	github.com/weedbox/syncsaga v0.0.0-20230821071725-a634f0872340 // indirect
	github.com/weedbox/timebank v0.0.0-20230713013837-bd7a6f808e3e // indirect
)

replace github.com/weedbox/pokercompetition => /repo
