module github.com/evalphobia/logrus_fluent

go 1.20
