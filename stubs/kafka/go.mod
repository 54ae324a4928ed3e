module github.com/segmentio/kafka-go

go 1.20
