// Package hnd has handlers of every shape that a router can be given.
package hnd

import "github.com/gin-gonic/gin"

type Ctl struct{ n int }

type Val struct{}

type fn func(*gin.Context)

func Plain(c *gin.Context) { c.Status(200) } // @Plain

func Second( // @Second
	c *gin.Context,
) {
	c.Status(201)
}

func (ctl *Ctl) Get(c *gin.Context) { c.Status(200 + ctl.n) }

func (Val) Get(c *gin.Context) { c.Status(202) }

func Make(n int) gin.HandlerFunc {
	return func(c *gin.Context) { // @Make
		c.Status(n)
	}
}

func Nested() gin.HandlerFunc {
	f := func() gin.HandlerFunc {
		return func(c *gin.Context) { c.Status(204) } // @Nested
	}
	return f()
}

var Lit = func(c *gin.Context) { c.Status(205) } // @Lit

var Lits = []gin.HandlerFunc{
	func(c *gin.Context) { c.Status(206) }, // @Lits0
	func(c *gin.Context) { c.Status(207) }, // @Lits1
}

func Gen[T any](c *gin.Context) { // @Gen
	var t T
	c.JSON(200, t)
}

//go:noinline
func Middleware(c *gin.Context) { c.Next() }

var Controller = &Ctl{1}

var Value Val

// Typed is a handler of a named function type.
var Typed fn = func(c *gin.Context) { c.Status(208) } // @Typed
