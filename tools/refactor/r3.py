O='runtime/src/story/variable_observer.rs'
sub(O,'''        match self.variable_observers.get_mut(variable_name) {
            Some(v) => {
                v.push(observer);
            }
            None => {
                let v: Vec<Rc<RefCell<dyn VariableObserver>>> = vec![observer];
                self.variable_observers.insert(variable_name.to_string(), v);
            }
        }
''','''        self.variable_observers
            .entry(variable_name.to_string())
            .or_default()
            .push(observer);
''')
sub(O,'''        let observers = self.variable_observers.get(variable_name);

        if let Some(observers) = observers {
            for o in observers.iter() {
                o.borrow_mut().changed(variable_name, value);
            }
        }
''','''        let Some(observers) = self.variable_observers.get(variable_name) else {
            return;
        };

        for o in observers {
            let mut target = o.borrow_mut();
            target.changed(variable_name, value);
        }
''')
sub(O,'''                // Remove observer for all variables
                let mut keys_to_remove = Vec::new();

                for (k, v) in self.variable_observers.iter_mut() {
                    v.retain(|x| !Rc::ptr_eq(x, observer));

                    if v.is_empty() {
                        keys_to_remove.push(k.to_string());
                    }
                }

                for key_to_remove in keys_to_remove.iter() {
                    self.variable_observers.remove(key_to_remove);
                }
''','''                // Remove observer for all variables
                for v in self.variable_observers.values_mut() {
                    v.retain(|x| !Rc::ptr_eq(x, observer));
                }
                self.variable_observers.retain(|_, v| !v.is_empty());
''')
N='runtime/src/story/navigation.rs'
sub(N,'''            return Err(StoryError::BadArgument(format!(
                "Cannot choose path '{path}' because it doesn't exist in the story"
            )));
        }
        StoryState::check_arguments(args)?;
''','''            return Err(Self::no_such_path(path));
        }
        StoryState::check_arguments(args)?;
''')
sub(N,'''    pub(crate) fn get_main_content_container(''','''    fn no_such_path(path: &str) -> StoryError {
        StoryError::BadArgument(format!(
            "Cannot choose path '{path}' because it doesn't exist in the story"
        ))
    }

    fn is_running_function(&self) -> bool {
        let callstack = self.get_state().get_callstack();
        let callstack = callstack.borrow();
        callstack.get_current_element().push_pop_type == PushPopType::Function
    }

    pub(crate) fn get_main_content_container(''')
sub(N,'''            if self
                .get_state()
                .get_callstack()
                .borrow()
                .get_current_element()
                .push_pop_type
                == PushPopType::Function
            {
                let mut func_detail''','''            if self.is_running_function() {
                let mut func_detail''')
sub(N,'''        let func_container = self.knot_container_with_name(func_name);
        if func_container.is_none() {
            let mut e = "Function doesn't exist: '".to_owned();
            e.push_str(func_name);
            e.push('\\'');

            return Err(StoryError::BadArgument(e));
        }
''','''        let Some(func_container) = self.knot_container_with_name(func_name) else {
            return Err(StoryError::BadArgument(format!(
                "Function doesn't exist: '{func_name}'"
            )));
        };
''')
sub(N,'func_container.unwrap(), args)','func_container, args)')
sub(N,'''        while self.can_continue() {
            match self.cont() {
                Ok(text) => text_output.push_str(&text),
                Err(e) => {
                    self.get_state_mut()
                        .reset_output(Some(output_stream_before));

                    return Err(e);
                }
            }
        }
''','''        let mut failure = None;
        while failure.is_none() && self.can_continue() {
            match self.cont() {
                Ok(text) => text_output.push_str(&text),
                Err(e) => failure = Some(e),
            }
        }
        if let Some(e) = failure {
            self.get_state_mut()
                .reset_output(Some(output_stream_before));
            return Err(e);
        }
''')
sub(N,'''        let current_child_of_container = pointer.resolve();

        if current_child_of_container.is_none() {
            return;
        }

        let mut current_child_of_container = current_child_of_container.unwrap();
''','''        let Some(mut current_child_of_container) = pointer.resolve() else {
            return;
        };
''')
sub(N,'''            if !self
                .prev_containers
                .iter()
                .any(|e| Rc::ptr_eq(e, &current_container))
                || current_container.counting_at_start_only
            {
''','''            let was_open = self
                .prev_containers
                .iter()
                .any(|e| Rc::ptr_eq(e, &current_container));
            if was_open && !current_container.counting_at_start_only {
                break;
            }
            {
''')
sub(N,'''                current_container_ancestor = current_container.get_object().get_parent();
            } else {
                break;
            }
''','''                current_container_ancestor = current_container.get_object().get_parent();
            }
''')
sub(N,'''                    .map(|first_child| {
                        Rc::ptr_eq(first_child, &current_child_of_container)
                            && all_children_entered_at_start
                    })
                    .unwrap_or(false);
''','''                    .is_some_and(|first_child| {
                        all_children_entered_at_start
                            && Rc::ptr_eq(first_child, &current_child_of_container)
                    });
''')
F='runtime/src/flow.rs'
sub(F,'''        if has_choice_threads {
            flow.insert''','''        if !jct.is_empty() {
            flow.insert''')
sub(F,'''        let mut has_choice_threads = false;
''','')
sub(F,'''                if !has_choice_threads {
                    has_choice_threads = true;
                }

''','')
sub(F,'''        let mut c_array: Vec<serde_json::Value> = Vec::new();
        for c in self.current_choices.iter() {
            c_array.push(json_write::write_choice(c));
        }
''','''        let c_array: Vec<serde_json::Value> = self
            .current_choices
            .iter()
            .map(|c| json_write::write_choice(c))
            .collect();
''')
