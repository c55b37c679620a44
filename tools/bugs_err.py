C="utils/csv.go"; L="utils/libsvm.go"; N="confu/confu.go"; X="xjson.go"; U="utils/json.go"; V="cv/cv.go"
IDS=["C14","C15"]
CASES={
 "line-early": [(L,"	if len(fields) == 0 {\n		return -1, nil, nil, fmt.Errorf(\"Empty line\")\n	}\n","	if !header && fields[0] == \"\" {\n		return -1, nil, nil, fmt.Errorf(\"Empty line\")\n	}\n")],
 "line-len": [(L,"		if len(feats) != 2 {","		if len(feats) > 2 {")],
 "line-early2": [(L,"		feats := strings.Split(v, \":\")\n		if len(feats) != 2 {\n			return -1, nil, nil, fmt.Errorf(\"Malformed term: %s\", v)\n		}\n		feat := feats[1]\n","		feats := strings.Split(v, \":\")\n		feat := feats[1]\n		if len(feats) != 2 {\n			return -1, nil, nil, fmt.Errorf(\"Malformed term: %s\", v)\n		}\n")],
 "line-empty": [(L,"	if len(fields) == 0 {\n","	if len(line) == 0 {\n")],
 "names-one": [(N,"		if len(l) < 2 {","		if len(l) < 1 {")],
 "names-sep": [(N,"	if len(separator) > 0 && separator[0] != \"\" {","	if separator[0] != \"\" && len(separator) > 0 {")],
 "names-err-order": [(N,"		num, err := strconv.Atoi(l[0])\n		if err != nil {\n			return nil, err\n		}\n		ret[num] = l[1]","		num, _ := strconv.Atoi(l[0])\n		ret[num] = l[1]")],
 "csv-nan": [(C,"		f, err := strconv.ParseFloat(v, 64)\n		if err != nil {\n			return -1, nil, err\n		}","		f, err := strconv.ParseFloat(v, 64)\n		if err != nil && v != \"\" {\n			return -1, nil, err\n		}")],
 "csv-idx2": [(C,"	for _, v := range records[start:] {\n		f, err := strconv.ParseFloat(v, 64)","	for i := 0; i < fields || i < len(records)-start; i++ {\n		v := records[start+i]\n		f, err := strconv.ParseFloat(v, 64)")],
 "csv-lazy": [(C,"	read.TrimLeadingSpace = true\n","	read.TrimLeadingSpace = true\n	read.FieldsPerRecord = -1\n")],
 "csv-quotes": [(C,"	read.TrimLeadingSpace = true\n","	read.TrimLeadingSpace = true\n	read.LazyQuotes = true\n")],
 "csv-hdr2": [(C,"			ini = 1\n","			ini = 2\n")],
 "csv-sep0": [(C,"	if len(separator) != 0 {\n		sep","	if separator != nil {\n		sep")],
 "svm-data0": [(L,"		if len(data) > 0 && len(t) != len(data[0]) {","		if len(t) != len(data[0]) && len(data) > 0 {")],
 "svm-partial": [(L,"		if err2 != nil && (err2 != io.EOF || line == \"\") {","		if err2 != nil {")],
 "svm-first": [(L,"		if len(data) > 0 && len(t) != len(data[0]) {","		if len(data) > 1 && len(t) != len(data[0]) {")],
 "json-assert": [(X,"		class = append(class, jtree.(*Tree))\n","		jt, _ := jtree.(*Tree)\n		class = append(class[:nclass], jt)\n")],
 "json-errnil": [(X,"	if err.Error() != \"EOF\" {","	if strings.Contains(err.Error(), \"unexpected\") {")],
 "json-trunc": [(X,"	if s != \"\" {\n","	if len(s) > 2 {\n")],
 "json-rounds": [(X,"			return nil, fmt.Errorf(\"Error reading tree %d","			if nround > 0 {\n				break\n			}\n			return nil, fmt.Errorf(\"Error reading tree %d")],
 "json-child-eof": [(U,"		s, err := r.ReadString('\\n')\n		if err != nil {\n			return nil, err\n		}\n\n","		s, err := r.ReadString('\\n')\n		if err != nil {\n			return ret, nil\n		}\n\n")],
 "json-childerr": [(U,"		if err != nil {\n			return ret, err\n		}\n		ret.Leftf(l)","		if err == nil {\n			ret.Leftf(l)\n		}\n")],
 "json-metaerr": [(X,"	if err != nil {\n		return nil, fmt.Errorf(\"Error unmarshalling metadata: %v\", err)\n	}\n","	if err != nil && jmc.ClassLabels == nil {\n		return nil, fmt.Errorf(\"Error unmarshalling metadata: %v\", err)\n	}\n")],
 # C15
 "csv-noclose": [(C,"	defer f.Close()\n	return ParseCSVFromReader(f, hasHeader, hasLabels, sep)","	D, err := ParseCSVFromReader(f, hasHeader, hasLabels, sep)\n	if err != nil {\n		return nil, err\n	}\n	f.Close()\n	return D, nil")],
 "svm-noclose": [(L,"	defer f.Close()\n","")],
 "names-closelate": [(N,"	defer ffin.Close()\n",""),(N,"	return ret, nil\n\n}\n\ntype Conf","	ffin.Close()\n	return ret, nil\n\n}\n\ntype Conf")],
 "best-noflush": [(V,"	err = bf.Flush()\n	if err != nil {\n		return err\n	}\n	return f.Close()","	defer bf.Flush()\n	return nil")],
 "best-flusherr": [(V,"	err = bf.Flush()\n	if err != nil {\n		return err\n	}\n	return f.Close()","	bf.Flush()\n	return f.Close()")],
 "best-closeerr": [(V,"	return f.Close()\n}","	return nil\n}")],
 "best-jsonerr": [(V,"	err = boo.JSONMultiClass(boosted, \"softmax\", bf)\n	if err != nil {\n		return err\n	}\n	err = bf.Flush()","	err = boo.JSONMultiClass(boosted, \"softmax\", bf)\n	err = bf.Flush()")],
 "best-order": [(V,"	err = bf.Flush()\n	if err != nil {\n		return err\n	}\n	return f.Close()","	err = f.Close()\n	if err != nil {\n		return err\n	}\n	return bf.Flush()")],
 "write-shadow": [(X,"			_, err = w.WriteString(string(bytes.Join(tree, []byte(\"\\n\"))) + \"\\n\")\n			if err != nil {\n				return err\n			}\n		}\n	}\n	return nil","			_, err = w.WriteString(string(bytes.Join(tree, []byte(\"\\n\"))) + \"\\n\")\n		}\n	}\n	return err")],
 "write-last": [(X,"		_, err = w.WriteString(fmt.Sprintf(\"ROUND %d\\n\", rn))\n		if err != nil {\n			return err\n		}\n		for cn","		_, err = w.WriteString(fmt.Sprintf(\"ROUND %d\\n\", rn))\n		for cn")],
 "grid-ignored": [(V,"				if err := writeBest(data, bestacc, bestop); err != nil {\n					log.Printf(\"Couldn't write the best model: %v\", err)\n				}","				writeBest(data, bestacc, bestop)\n				log.Printf(\"\")")],
}
