// Package parser is a stand-in for vimagination.zapto.org/parser v1.0.0, which
// cannot be fetched in the sandbox: a tokeniser driven by state functions, and
// a token-level parser on top.
package parser

import (
	"errors"
	"io"
	"strings"
	"unicode/utf8"
)

// TokenType represents the type of token.
type TokenType int

// Reserved token types.
const (
	TokenDone TokenType = -1 - iota
	TokenError
)

// Errors.
var (
	ErrNoState      = errors.New("no state")
	ErrUnknownError = errors.New("unknown error")
)

// Token represents data parsed from the stream.
type Token struct {
	Type TokenType
	Data string
}

// TokenFunc is a state of the tokeniser.
type TokenFunc func(*Tokeniser) (Token, TokenFunc)

// Tokeniser is a state machine to generate tokens from an input.
type Tokeniser struct {
	data  []byte
	runes bool // decode UTF-8 rather than bytes
	start int
	pos   int
	Err   error
	state TokenFunc
}

// NewByteTokeniser returns a Tokeniser which uses a byte slice.
func NewByteTokeniser(data []byte) Tokeniser {
	return Tokeniser{data: data, runes: true}
}

// NewStringTokeniser returns a Tokeniser which uses a string.
func NewStringTokeniser(str string) Tokeniser {
	return Tokeniser{data: []byte(str), runes: true}
}

// TokeniserState sets the initial state of the Tokeniser.
func (t *Tokeniser) TokeniserState(tf TokenFunc) {
	t.state = tf
}

func (t *Tokeniser) peek() (rune, int) {
	if t.pos >= len(t.data) {
		return -1, 0
	}

	return utf8.DecodeRune(t.data[t.pos:])
}

// Peek returns the next rune without advancing.
func (t *Tokeniser) Peek() rune {
	r, _ := t.peek()

	return r
}

// Next returns the next rune and advances.
func (t *Tokeniser) Next() rune {
	r, n := t.peek()
	t.pos += n

	return r
}

// Get returns everything read since the last Get.
func (t *Tokeniser) Get() string {
	s := string(t.data[t.start:t.pos])
	t.start = t.pos

	return s
}

// Len returns the number of bytes read since the last Get.
func (t *Tokeniser) Len() int {
	return t.pos - t.start
}

// Accept advances past the next rune if it is in chars.
func (t *Tokeniser) Accept(chars string) bool {
	r, n := t.peek()
	if r < 0 || !strings.ContainsRune(chars, r) {
		return false
	}

	t.pos += n

	return true
}

// AcceptString advances past as much of str as matches.
func (t *Tokeniser) AcceptString(str string, caseInsensitive bool) int {
	read := 0

	for _, r := range str {
		c, n := t.peek()
		if c != r && !(caseInsensitive && strings.EqualFold(string(c), string(r))) {
			break
		}

		t.pos += n
		read += n
	}

	return read
}

// AcceptRun advances past all runes in chars and returns the first not in it.
func (t *Tokeniser) AcceptRun(chars string) rune {
	for t.Accept(chars) {
	}

	return t.Peek()
}

// Except advances past the next rune if it is not in chars.
func (t *Tokeniser) Except(chars string) bool {
	r, n := t.peek()
	if r < 0 || strings.ContainsRune(chars, r) {
		return false
	}

	t.pos += n

	return true
}

// ExceptRun advances past all runes not in chars and returns the first in it.
func (t *Tokeniser) ExceptRun(chars string) rune {
	for t.Except(chars) {
	}

	return t.Peek()
}

// Done is the TokenFunc that indicates that there are no more tokens.
func (t *Tokeniser) Done() (Token, TokenFunc) {
	t.Err = io.EOF

	return Token{Type: TokenDone}, (*Tokeniser).Done
}

// Error is the TokenFunc that represents an error state.
func (t *Tokeniser) Error() (Token, TokenFunc) {
	if t.Err == nil {
		t.Err = ErrUnknownError
	}

	return Token{Type: TokenError, Data: t.Err.Error()}, (*Tokeniser).Error
}

// Return emits a token with the current data and moves to the next state.
func (t *Tokeniser) Return(typ TokenType, fn TokenFunc) (Token, TokenFunc) {
	if fn == nil {
		fn = (*Tokeniser).Done
	}

	return Token{Type: typ, Data: t.Get()}, fn
}

// ReturnError sets the error and moves to the error state.
func (t *Tokeniser) ReturnError(err error) (Token, TokenFunc) {
	t.Err = err

	return t.Error()
}

// GetError returns the stored error.
func (t *Tokeniser) GetError() error {
	return t.Err
}

func (t *Tokeniser) get() Token {
	if t.Err == io.EOF {
		return Token{Type: TokenDone}
	}

	if t.state == nil {
		t.Err = ErrNoState
		t.state = (*Tokeniser).Error
	}

	var tk Token

	tk, t.state = t.state(t)
	if tk.Type == TokenError && t.Err == io.EOF {
		t.Err = io.ErrUnexpectedEOF
	}

	return tk
}

// GetToken returns the next token.
func (t *Tokeniser) GetToken() (Token, error) {
	tk := t.get()
	if tk.Type == TokenError {
		return tk, t.Err
	}

	return tk, nil
}

// Parser is a parser of tokens.
type Parser struct {
	Tokeniser
	tokens []Token
	peeked bool
}

// New creates a new Parser from the given Tokeniser.
func New(t Tokeniser) Parser {
	return Parser{Tokeniser: t}
}

func (p *Parser) next() Token {
	if p.peeked {
		p.peeked = false

		return p.tokens[len(p.tokens)-1]
	}

	tk := p.Tokeniser.get()
	p.tokens = append(p.tokens, tk)

	return tk
}

func (p *Parser) backup() {
	p.peeked = true
}

// Peek returns the next token without advancing.
func (p *Parser) Peek() Token {
	tk := p.next()
	p.backup()

	return tk
}

// Next returns the next token and advances.
func (p *Parser) Next() Token {
	return p.next()
}

// Get retrieves the tokens read since the last Get.
func (p *Parser) Get() []Token {
	var toRet []Token

	if p.peeked {
		tk := p.tokens[len(p.tokens)-1]
		toRet = append(toRet, p.tokens[:len(p.tokens)-1]...)
		p.tokens = append(p.tokens[:0], tk)
	} else {
		toRet = append(toRet, p.tokens...)
		p.tokens = p.tokens[:0]
	}

	return toRet
}

// Len returns how many tokens have been read since the last Get.
func (p *Parser) Len() int {
	l := len(p.tokens)
	if p.peeked {
		l--
	}

	return l
}

// Accept accepts the next token if it is of one of the types.
func (p *Parser) Accept(types ...TokenType) bool {
	tk := p.next()

	for _, t := range types {
		if tk.Type == t {
			return true
		}
	}

	p.backup()

	return false
}

// AcceptRun accepts tokens of the types and returns the type of the first that
// is not.
func (p *Parser) AcceptRun(types ...TokenType) TokenType {
	for p.Accept(types...) {
	}

	return p.Peek().Type
}

// Except accepts the next token if it is not of one of the types.
func (p *Parser) Except(types ...TokenType) bool {
	tk := p.next()

	for _, t := range types {
		if tk.Type == t {
			p.backup()

			return false
		}
	}

	return true
}

// ExceptRun accepts tokens not of the types and returns the type of the first
// that is. Done and Error tokens also end the run.
func (p *Parser) ExceptRun(types ...TokenType) TokenType {
	types = append(append([]TokenType{}, types...), TokenDone, TokenError)

	for p.Except(types...) {
	}

	return p.Peek().Type
}
