R='src/receiver.rs'; W='websocket-base/src/codec/ws.rs'; M='websocket-base/src/message.rs'; D='websocket-base/src/dataframe.rs'; T='websocket-base/src/ws/dataframe.rs'
EDITS=[
 ('r-ctrl-clears','bug',['C08'],[(R,'8..=15 => {\n','8..=15 => {\n self.buffer.clear();\n')]),
 ('r-cont-first','bug',['C08'],[(R,'first.opcode == Opcode::Continuation','first.opcode == Opcode::Continuation && first.finished')]),
 ('r-data-mid','bug',['C08'],[(R,'				0 => {','				0 | 2 => {')]),
 ('r-noclear','bug',['C08'],[(R,'Ok(::std::mem::replace(&mut self.buffer, Vec::new()))','Ok(self.buffer.clone())')]),
 ('r-limit-msg','bug',['C10'],[(R,'if current_message_length >= self.max_message_size','if current_message_length >= 2 * self.max_message_size')]),
 ('r-limit-count','bug',['C10'],[(R,'if self.buffer.len() >= MAX_DATAFRAMES_IN_ONE_MESSAGE','if self.buffer.len() == MAX_DATAFRAMES_IN_ONE_MESSAGE')]),
 ('r-limit-nosum','bug',['C10'],[(R,'let mut current_message_length : usize = self.buffer.iter().map(|x|x.data.len()).sum();','let mut current_message_length : usize = 0;')]),
 ('r-order','bug',['C08'],[(R,'self.buffer.push(next)','if self.buffer.len() == 2 { self.buffer.insert(1, next) } else { self.buffer.push(next) }')]),
 ('w-ctrl-first','bug',['C08'],[(W,'8..=15 => {','8..=15 if is_first => {')]),
 ('w-drop','bug',['C08'],[(W,'self.buffer.push(frame);','if frame.data.len() > 0 || finished { self.buffer.push(frame); }')]),
 ('w-fin','bug',['C08'],[(W,'			if finished {','			if finished && current_message_length > 0 && !self.buffer.is_empty() || self.buffer.len() > 2 {')]),
 ('w-limit','bug',['C10'],[(W,'current_message_length > self.max_message_size','current_message_length > self.max_message_size.wrapping_add(1)')]),
 ('w-limit2','bug',['C10'],[(W,'frame.data.len() + PER_DATAFRAME_OVERHEAD','PER_DATAFRAME_OVERHEAD')]),
 ('m-rsv','bug',['C09'],[(M,'!= [false; 3]','== [true; 3]')]),
 ('m-cont','bug',['C09'],[(M,'i > 0 &&','i > 1 &&')]),
]
