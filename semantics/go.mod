module sem.test/sem

go 1.21
