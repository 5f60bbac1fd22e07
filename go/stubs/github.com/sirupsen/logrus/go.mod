module github.com/sirupsen/logrus

go 1.20
