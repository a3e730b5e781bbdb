S='runtime/src/story_state.rs'
sub(S,'''        for e in self.get_output_stream().iter().rev() {
            if let Some(cmd) = e.as_any().downcast_ref::<ControlCommand>()
                && cmd.command_type == CommandType::BeginString
            {
                return true;
            }
        }
        false
    }''','''        self.get_output_stream().iter().rev().any(|e| {
            e.as_any()
                .downcast_ref::<ControlCommand>()
                .is_some_and(|cmd| cmd.command_type == CommandType::BeginString)
        })
    }''')
sub(S,'''        for content in self.get_output_stream() {
            if let Some(v) = content.as_any().downcast_ref::<Value>()
                && let ValueType::String(_) = v.value
            {
                return true;
            }
        }

        false
''','''        self.get_output_stream().iter().any(|content| {
            matches!(content.as_any().downcast_ref::<Value>(), Some(v) if matches!(v.value, ValueType::String(_)))
        })
''')
L='runtime/src/ink_list.rs'
sub(L,'''        for k in other_list.items.keys() {
            if !self.items.contains_key(k) {
                return false;
            }
        }

        true
''','''        other_list.items.keys().all(|k| self.items.contains_key(k))
''')
P='runtime/src/path.rs'
sub(P,'''        for i in 0..other.components.len() {
            if !other
                .components
                .get(i)
                .unwrap()
                .eq(self.components.get(i).unwrap())
            {
                return false;
            }
        }

        true
''','''        self.components
            .iter()
            .zip(other.components.iter())
            .all(|(a, b)| a == b)
''')
