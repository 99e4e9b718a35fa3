//! Values as TLC prints them: numbers, strings, booleans and tuples.

#[derive(Clone, Debug, PartialEq)]
pub enum Value {
    Number(i64),
    String(String),
    Tuple(Vec<Value>),
}

impl Value {
    pub fn number(&self) -> i64 {
        match self {
            Value::Number(value) => *value,
            _ => panic!("expected a number, found {self:?}"),
        }
    }

    pub fn string(&self) -> &str {
        match self {
            Value::String(value) => value,
            _ => panic!("expected a string, found {self:?}"),
        }
    }

    pub fn tuple(&self) -> &[Value] {
        match self {
            Value::Tuple(values) => values,
            _ => panic!("expected a tuple, found {self:?}"),
        }
    }

    pub fn numbers(&self) -> Vec<i64> {
        self.tuple().iter().map(Value::number).collect()
    }

    pub fn bytes(&self) -> Vec<u8> {
        self.tuple()
            .iter()
            .map(|value| u8::try_from(value.number()).expect("expected a byte"))
            .collect()
    }
}

pub fn parse(line: &str) -> Value {
    let bytes = line.trim().as_bytes();
    let mut position = 0;
    let value = parse_at(bytes, &mut position);
    skip(bytes, &mut position);
    assert_eq!(position, bytes.len(), "trailing characters in {line}");
    value
}

fn skip(bytes: &[u8], position: &mut usize) {
    while *position < bytes.len() && (bytes[*position] as char).is_whitespace() {
        *position += 1;
    }
}

fn parse_at(bytes: &[u8], position: &mut usize) -> Value {
    skip(bytes, position);
    match bytes[*position] {
        b'<' => {
            *position += 2;
            let mut values = vec![];
            loop {
                skip(bytes, position);
                match bytes[*position] {
                    b'>' => {
                        *position += 2;
                        return Value::Tuple(values);
                    }
                    b',' => *position += 1,
                    _ => values.push(parse_at(bytes, position)),
                }
            }
        }
        b'"' => {
            let start = *position + 1;
            let mut end = start;
            while bytes[end] != b'"' {
                end += 1;
            }
            *position = end + 1;
            Value::String(String::from_utf8(bytes[start..end].to_vec()).unwrap())
        }
        b'T' => {
            *position += 4;
            Value::Number(1)
        }
        b'F' => {
            *position += 5;
            Value::Number(0)
        }
        _ => {
            let start = *position;
            *position += 1;
            while *position < bytes.len() && bytes[*position].is_ascii_digit() {
                *position += 1;
            }
            let text = std::str::from_utf8(&bytes[start..*position]).unwrap();
            Value::Number(text.parse().unwrap_or_else(|_| panic!("malformed number {text:?}")))
        }
    }
}
