module github.com/boynton/smithy

go 1.18
