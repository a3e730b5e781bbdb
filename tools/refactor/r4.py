W='runtime/src/json/json_write.rs'
sub(W,'''    let mut tags: Vec<serde_json::Value> = Vec::new();
    for t in &choice.tags {
        tags.push(json!(t));
    }

    serde_json::Value::Array(tags)
''','''    serde_json::Value::Array(choice.tags.iter().map(|t| json!(t)).collect())
''')
sub(W,'''    let mut c_array: Vec<serde_json::Value> = Vec::new();

    for o in objs {
        c_array.push(write_rtobject(o.clone())?);
    }
''','''    let mut c_array = Vec::with_capacity(objs.len());

    for o in objs.iter() {
        let token = write_rtobject(o.clone())?;
        c_array.push(token);
    }
''')
sub(W,'''        let mut name = String::new();

        match item.get_origin_name() {
            Some(n) => name.push_str(n),
            None => name.push('?'),
        }

        name.push('.');
        name.push_str(item.get_item_name());

        jlist.insert(name, json!(v));
''','''        jlist.insert(list_item_key(item), json!(v));
''')
sub(W,'''pub fn write_ink_list(''','''fn list_item_key(item: &InkListItem) -> String {
    let mut name = String::new();

    if let Some(n) = item.get_origin_name() {
        name.push_str(n);
    } else {
        name.push('?');
    }

    name.push('.');
    name.push_str(item.get_item_name());
    name
}

pub fn write_ink_list(''')
sub(W,'''    ink_list::InkList,
''','''    ink_list::InkList,
    ink_list_item::InkListItem,
''')
sub(W,'''        let mut s = String::new();

        if v.is_newline {
            s.push('\\n');
        } else {
            s.push('^');
            s.push_str(&v.string);
        }

        return Ok(json!(s));
''','''        if v.is_newline {
            return Ok(json!("\\n"));
        }

        let mut s = String::from("^");
        s.push_str(&v.string);

        return Ok(json!(s));
''')
sub(W,'''        let read_count_path = var_ref.get_path_string_for_count();
        if read_count_path.is_some() {
            jobj.insert("CNT?".to_owned(), json!(read_count_path));
        } else {
            jobj.insert("VAR?".to_owned(), json!(var_ref.name.clone()));
        }
''','''        match var_ref.get_path_string_for_count() {
            Some(path) => jobj.insert("CNT?".to_owned(), json!(path)),
            None => jobj.insert("VAR?".to_owned(), json!(var_ref.name)),
        };
''')
C='runtime/src/callstack.rs'
sub(C,'''        let mut cs_array: Vec<serde_json::Value> = Vec::new();

        for el in self.callstack.iter() {
            let mut el_map: Map<String, serde_json::Value> = Map::new();

            if !el.current_pointer.is_null() {
                el_map.insert(
                    "cPath".to_owned(),
                    json!(
                        Object::get_path(el.current_pointer.container.as_ref().unwrap().as_ref())
                            .get_components_string()
                    ),
                );
                el_map.insert("idx".to_owned(), json!(el.current_pointer.index));
            }
            el_map.insert("exp".to_owned(), json!(el.in_expression_evaluation));
            el_map.insert("type".to_owned(), json!(el.push_pop_type as u32));

            if !el.temporary_variables.is_empty() {
                el_map.insert(
                    "temp".to_owned(),
                    json_write::write_dictionary_values(&el.temporary_variables)?,
                );
            }

            cs_array.push(serde_json::Value::Object(el_map));
        }
''','''        let mut cs_array: Vec<serde_json::Value> = Vec::with_capacity(self.callstack.len());

        for el in &self.callstack {
            cs_array.push(el.write_json()?);
        }
''')
sub(C,'''impl Thread {''','''impl Element {
    fn write_json(&self) -> Result<serde_json::Value, StoryError> {
        let mut el_map: Map<String, serde_json::Value> = Map::new();

        if let Some(container) = self.current_pointer.container.as_ref() {
            let path = Object::get_path(container.as_ref());
            el_map.insert("cPath".to_owned(), json!(path.get_components_string()));
            el_map.insert("idx".to_owned(), json!(self.current_pointer.index));
        }
        el_map.insert("type".to_owned(), json!(self.push_pop_type as u32));
        el_map.insert("exp".to_owned(), json!(self.in_expression_evaluation));

        if !self.temporary_variables.is_empty() {
            let temps = json_write::write_dictionary_values(&self.temporary_variables)?;
            el_map.insert("temp".to_owned(), temps);
        }

        Ok(serde_json::Value::Object(el_map))
    }
}

impl Thread {''')
sub(C,'''                    if current_container_path_str.is_some() {
                        let thread_pointer_result = main_content_container.content_at_path(
                            &Path::new_with_components_string(current_container_path_str),
                            0,
                            -1,
                        );
''','''                    if let Some(path_str) = current_container_path_str {
                        let path = Path::new_with_components_string(Some(path_str));
                        let thread_pointer_result =
                            main_content_container.content_at_path(&path, 0, -1);
''')
S='runtime/src/story_state.rs'
sub(S,'''        if let Some(visit_counts_obj) = j_object.get("visitCounts") {
            self.visit_counts =
                json_read::jobject_to_int_hashmap(visit_counts_obj.as_object().ok_or_else(
                    || StoryError::BadJson("Invalid visit counts object".to_string()),
                )?)?;
        }
''','''        if let Some(visit_counts_obj) = j_object.get("visitCounts") {
            let counts = visit_counts_obj.as_object().ok_or_else(|| {
                StoryError::BadJson("Invalid visit counts object".to_string())
            })?;
            self.visit_counts = json_read::jobject_to_int_hashmap(counts)?;
        }
''')
J='runtime/src/json/json_read.rs'
sub(J,'''    let mut tags: Vec<String> = Vec::new();

    let prop_value = obj.get("tags");
    if let Some(pv) = prop_value {
        let tags_array = pv.as_array().unwrap();
        for tag in tags_array {
            tags.push(tag.as_str().unwrap().to_string());
        }
    }

    tags
''','''    let Some(pv) = obj.get("tags") else {
        return Vec::new();
    };

    let mut tags: Vec<String> = Vec::new();
    for tag in pv.as_array().unwrap() {
        tags.push(tag.as_str().unwrap().to_string());
    }
    tags
''')
sub(J,'''    let mut dict: HashMap<String, i32> = HashMap::new();

    for (k, v) in jobj.iter() {
        dict.insert(k.clone(), v.as_i64().unwrap() as i32);
    }

    Ok(dict)
''','''    let mut dict: HashMap<String, i32> = HashMap::with_capacity(jobj.len());

    for (name, count) in jobj {
        let count = count.as_i64().unwrap() as i32;
        dict.insert(name.to_string(), count);
    }

    Ok(dict)
''')
