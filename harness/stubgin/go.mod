module github.com/gin-gonic/gin

go 1.21
