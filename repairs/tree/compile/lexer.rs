
use crate::compile::token::*;

/* The text up to the given delimiter, which is consumed, and whether it was found.
 * It does not count inside a quoted string. */
fn take_until(iter: &mut impl Iterator<Item = (usize, char)>, end: char) -> (String, bool) {
    let mut text = String::new();
    let mut in_string = false;
    for (_, c) in iter {
        if c == end && !in_string {
            return (text, true);
        }
        if c == '"' {
            in_string = !in_string;
        }
        text.push(c);
    }
    (text, false)
}

pub fn tokenize(code: &str) -> Vec<Token> {
    let mut list = Vec::<Token>::new();
    let mut buffer = String::new();
    let mut in_assertion = false;
    let mut lex_iter = code.chars().into_iter().enumerate().peekable();

    let flush_buffer = |b: &str| -> Result<Token, String> {
        match b {
            "table" => Ok(Token::new(TokenType::Table)),
            "relationship" => Ok(Token::new(TokenType::Relationship)),
            "value_list" => Ok(Token::new(TokenType::ValueList)),
            "table_occurence" => Ok(Token::new(TokenType::TableOccurence)),
            "script" => Ok(Token::new(TokenType::Script)),
            "test" => Ok(Token::new(TokenType::Test)),
            "end" => Ok(Token::new(TokenType::End)),
            _ => {
                let n = b.parse::<f64>();
                /* Words like "inf" parse as numbers, but are names. */
                if n.is_ok() && !b.as_bytes()[0].is_ascii_alphabetic() {
                    Ok(Token::with_value(TokenType::NumericLiteral, n.unwrap().to_string()))
                } else if !b.as_bytes()[0].is_ascii_digit() {
                    Ok(Token::with_value(TokenType::Identifier, b.to_string()))
                } else {
                    Ok(Token::with_value(TokenType::Invalid, b.to_string()))
                }
            }
        }
    };

    while let Some((idx, mut c)) = &lex_iter.next() {
        if c.is_whitespace() && buffer.is_empty() {
            continue;
        }

        let mut scope = 1;
        while in_assertion == true {
            if scope == 0 {
                list.push(Token { ttype: TokenType::Assertion, text: buffer.to_string()});
                buffer.clear();
                while c.is_whitespace() {
                    c = lex_iter.next().unwrap().1;
                    continue;
                }
                if c == ',' {
                    c = lex_iter.next().unwrap().1;
                    while c.is_whitespace() {
                        c = lex_iter.next().unwrap().1;
                    }
                    if c == '(' {
                        scope = 1;
                    } else {
                        in_assertion = false;
                    }
                } else {
                    in_assertion = false;
                }
            } else if c == '(' {
                scope += 1;
            } else if c == ')' {
                scope -= 1;
            }
            buffer.push(c);
            c = lex_iter.next().unwrap().1;
        }

        let b = buffer.as_str();

        let tmp = match c {
            x if x.is_whitespace() => 
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret

            },
            '=' =>  
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }

                if let Some(n) = lex_iter.peek() {
                    if n.1 == '=' {
                        ret.push(Token::new(TokenType::EComparison));
                        lex_iter.next();
                    } else {
                        ret.push(Token::new(TokenType::Assign));
                    }
                }
                ret
            },
            '[' => 
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret.push(Token::new(TokenType::OpenSquare));
                if list.last().map_or(true, |t| t.ttype != TokenType::FoundIn) {
                    let (text, closed) = take_until(&mut lex_iter, ']');
                    ret.push(Token::with_value(TokenType::Script, text));
                    if closed {
                        ret.push(Token::new(TokenType::CloseSquare));
                    }
                }
                ret
            },
            ']' => 
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret.push(Token::new(TokenType::CloseSquare));
                ret
            },
            '(' => 
            {
                if list.len() >= 2 && list[list.len() - 2].ttype == TokenType::AssertionBlock {
                    in_assertion = true;       
                    buffer.push(c);
                    vec![]
                } else {
                    let mut ret: Vec<Token> = vec![];
                    if !buffer.is_empty() {
                        let out = flush_buffer(b);
                        if out.is_ok() {
                            ret.push(out.unwrap());
                        }
                        buffer.clear();
                    }
                    ret.push(Token::new(TokenType::OpenParen));
                    ret
                }

            },
            ')' => 
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret.push(Token::new(TokenType::CloseParen));
                ret

            },
            '"' =>  
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret.push(Token::with_value(TokenType::String, take_until(&mut lex_iter, '"').0));
                ret
            },
            '!' =>  
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret.push(Token::new(TokenType::Exclamation));
                ret
            },
            '{' => 
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret.push(Token::new(TokenType::OpenCurly));
                ret.push(Token::with_value(TokenType::Calculation, take_until(&mut lex_iter, '}').0));
                ret
            },
            '}' => {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret.push(Token::new(TokenType::CloseCurly));
                ret
            },
            ';' => 
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret.push(Token::new(TokenType::SemiColon));
                ret
            },
            ':' =>
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret.push(Token::new(TokenType::Colon));
                ret
            }
            ',' =>  
            {
                let mut ret: Vec<Token> = vec![];
                if !buffer.is_empty() {
                    let out = flush_buffer(b);
                    if out.is_ok() {
                        ret.push(out.unwrap());
                    }
                    buffer.clear();
                }
                ret.push(Token::new(TokenType::Comma));
                ret
            }
            _ => 
            {
                buffer.push(c);
                vec![]
            }
        };
        if !tmp.is_empty() {
            for t in tmp {
                list.push(t);
            }
            buffer.clear();
        }
    }

    if !buffer.is_empty() {
        if let Ok(t) = flush_buffer(&buffer) {
            list.push(t);
        }
    }

    return list;

}
