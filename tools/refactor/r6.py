N='runtime/src/native_function_call.rs'
L='runtime/src/ink_list.rs'
V='runtime/src/value.rs'
X='compiler/src/parser/expression.rs'
sub(N,'''        match &params[0].value {
            ValueType::Bool(op1) => match params[1].value {
                ValueType::Bool(op2) => Ok(Rc::new(Value::new::<bool>(*op1 && op2))),
                _ => Err(StoryError::InvalidStoryState(
                    "Operation not available for type.".to_owned(),
                )),
            },
            ValueType::Int(op1) => match params[1].value {
                ValueType::Int(op2) => Ok(Rc::new(Value::new::<bool>(*op1 != 0 && op2 != 0))),
                _ => Err(StoryError::InvalidStoryState(
                    "Operation not available for type.".to_owned(),
                )),
            },
            ValueType::Float(op1) => match params[1].value {
                ValueType::Float(op2) => Ok(Rc::new(Value::new::<bool>(*op1 != 0.0 && op2 != 0.0))),
                _ => Err(StoryError::InvalidStoryState(
                    "Operation not available for type.".to_owned(),
                )),
            },
            ValueType::List(op1) => match &params[1].value {
                ValueType::List(op2) => Ok(Rc::new(Value::new::<bool>(
                    !op1.items.is_empty() && !op2.items.is_empty(),
                ))),
                _ => Err(StoryError::InvalidStoryState(
                    "Operation not available for type.".to_owned(),
                )),
            },
            _ => Err(StoryError::InvalidStoryState(
                "Operation not available for type.".to_owned(),
            )),
        }
''','''        let both = match (&params[0].value, &params[1].value) {
            (ValueType::Bool(x), ValueType::Bool(y)) => *x && *y,
            (ValueType::Int(x), ValueType::Int(y)) => !(*x == 0 || *y == 0),
            (ValueType::Float(x), ValueType::Float(y)) => *x != 0.0 && *y != 0.0,
            (ValueType::List(x), ValueType::List(y)) => {
                !(x.items.is_empty() || y.items.is_empty())
            }
            _ => {
                return Err(StoryError::InvalidStoryState(
                    "Operation not available for type.".to_owned(),
                ));
            }
        };
        Ok(Rc::new(Value::new::<bool>(both)))
''')
sub(N,'''ValueType::Int(op2) => Ok(Rc::new(Value::new::<bool>(*op1 > op2))),''','''ValueType::Int(op2) => {
                    let gt = op2 < *op1;
                    Ok(Rc::new(Value::new::<bool>(gt)))
                }''')
sub(L,'''            if max.is_none() || *v > max.as_ref().unwrap().1 {
                max = Some((k, *v));
            }
''','''            match max {
                Some((_, m)) if *v <= m => {}
                _ => max = Some((k, *v)),
            }
''')
sub(L,'''        for (key, value) in &other_list.items {
            union.items.insert(key.clone(), *value);
        }
''','''        union
            .items
            .extend(other_list.items.iter().map(|(k, v)| (k.clone(), *v)));
''')
sub(N,'''        let mut has_list = false;

        for p in &params {
            if p.as_ref().as_any().is::<Void>() {
                return Err(StoryError::InvalidStoryState(format!(
                    "Attempting to perform {} on a void value. Did you forget to 'return' a value from a function you called here?",
                    Self::get_name(self.op)
                )));
            }

            if Value::get_value::<&InkList>(p.as_ref()).is_some() {
                has_list = true;
            }
        }
''','''        self.reject_void(&params)?;
        let has_list = params
            .iter()
            .any(|p| Value::get_value::<&InkList>(p.as_ref()).is_some());
''')
sub(N,'''    fn call_binary_list_operation(
''','''    fn reject_void(&self, params: &[Rc<dyn RTObject>]) -> Result<(), StoryError> {
        for p in params {
            if p.as_ref().as_any().is::<Void>() {
                return Err(StoryError::InvalidStoryState(format!(
                    "Attempting to perform {} on a void value. Did you forget to 'return' a value from a function you called here?",
                    Self::get_name(self.op)
                )));
            }
        }
        Ok(())
    }

    fn call_binary_list_operation(
''')
sub(N,'''            if let Some(v) = obj.as_ref().as_any().downcast_ref::<Value>()
                && v.get_cast_ordinal() > dest_type
            {
                dest_type = v.get_cast_ordinal();
            }
''','''            if let Some(v) = obj.as_ref().as_any().downcast_ref::<Value>() {
                dest_type = dest_type.max(v.get_cast_ordinal());
            }
''')
sub(N,'''        if (self.op == Op::Add || self.op == Op::Subtract)
            && Value::get_value::<&InkList>(params[0].as_ref()).is_some()
            && Value::get_value::<i32>(params[1].as_ref()).is_some()
        {''','''        let list_left = Value::get_value::<&InkList>(params[0].as_ref()).is_some();
        let int_right = Value::get_value::<i32>(params[1].as_ref()).is_some();
        if matches!(self.op, Op::Add | Op::Subtract) && list_left && int_right {''')
sub(N,'''            let target_int = {
                if self.op == Op::Add {
                    list_item_value.wrapping_add(int_val)
                } else {
                    list_item_value.wrapping_sub(int_val)
                }
            };
''','''            let target_int = match self.op {
                Op::Add => list_item_value.wrapping_add(int_val),
                _ => list_item_value.wrapping_sub(int_val),
            };
''')
sub(L,'''        if let ValueType::Int(v) = min_bound {
            min_value = *v;
        } else if let ValueType::List(l) = min_bound
            && !l.items.is_empty()
        {
            min_value = l.get_min_item().unwrap().1;
        }
''','''        match min_bound {
            ValueType::Int(v) => min_value = *v,
            ValueType::List(l) => {
                if let Some((_, v)) = l.get_min_item() {
                    min_value = v;
                }
            }
            _ => {}
        }
''')
sub(L,'''                if !self.items.contains_key(k) {
                    list.items.insert(k.clone(), *v);
                }
''','''                if self.items.contains_key(k) {
                    continue;
                }
                list.items.insert(k.clone(), *v);
''')
sub(L,'''        match self.items.is_empty() {
            true => InkList::new(),
            false => {
                let item = self.get_max_item();
                InkList::from_single_element((
                    item.as_ref().unwrap().0.clone(),
                    item.as_ref().unwrap().1,
                ))
            }
        }
''','''        match self.get_max_item() {
            Some((item, value)) => InkList::from_single_element((item.clone(), value)),
            None => InkList::new(),
        }
''')
sub(V,'''                    if *v {
                        Ok(Some(Self::new::<i32>(1)))
                    } else {
                        Ok(Some(Self::new::<i32>(0)))
                    }
''','''                    let n = if *v { 1 } else { 0 };
                    Ok(Some(Self::new::<i32>(n)))
''')
sub(V,'''                    let max = l.get_max_item();
                    match max {
                        Some(i) => Ok(Some(Self::new::<f32>(i.1 as f32))),
                        None => Ok(Some(Self::new::<f32>(0.0))),
                    }
''','''                    let top = l.get_max_item().map_or(0.0, |i| i.1 as f32);
                    Ok(Some(Self::new::<f32>(top)))
''')
sub(X,'''        loop {
            if self.match_token(&Token::EqualEqual) {
                let right = self.parse_comparison()?;
                expression = Expression::Binary {
                    left: Box::new(expression),
                    operator: BinaryOperator::Equal,
                    right: Box::new(right),
                };
            } else if self.match_token(&Token::NotEqual) {
                let right = self.parse_comparison()?;
                expression = Expression::Binary {
                    left: Box::new(expression),
                    operator: BinaryOperator::NotEqual,
                    right: Box::new(right),
                };
            } else {
                break;
            }
        }
''','''        loop {
            let operator = if self.match_token(&Token::EqualEqual) {
                BinaryOperator::Equal
            } else if self.match_token(&Token::NotEqual) {
                BinaryOperator::NotEqual
            } else {
                break;
            };
            let right = self.parse_comparison()?;
            expression = Expression::Binary {
                left: Box::new(expression),
                operator,
                right: Box::new(right),
            };
        }
''')
sub(X,'''        loop {
            if self.match_token(&Token::Star) {''','''        loop {
            let star = self.match_token(&Token::Star);
            if star {''')
