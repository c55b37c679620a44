C="utils/csv.go"; L="utils/libsvm.go"; N="confu/confu.go"
IDS=["C13","C24"]
CASES={
 # C13
 "rec-start": [(C,"	for _, v := range records[start:] {","	for _, v := range records[start:max(start, len(records)-start)] {")],
 "rec-skipbad": [(C,"		f, err := strconv.ParseFloat(v, 64)\n		if err != nil {\n			return -1, nil, err\n		}","		f, err := strconv.ParseFloat(v, 64)\n		if err != nil && v != \"\" {\n			return -1, nil, err\n		}")],
 "rec-32": [(C,"strconv.ParseFloat(v, 64)","strconv.ParseFloat(v, 32)")],
 "rec-labelswallow": [(C,"		label, err = strconv.Atoi(records[0])\n		if err != nil {\n			return -1, nil, err\n		}","		label, err = strconv.Atoi(records[0])\n		if err != nil {\n			label = -1\n		}")],
 "csv-labels-always": [(C,"		if hasLabels {\n			labels = append(labels, l)\n		}","		labels = append(labels, l)")],
 "csv-reuse": [(C,"	read.TrimLeadingSpace = true","	read.TrimLeadingSpace = true\n	read.ReuseRecord = true")],
 "csv-ragged": [(C,"	read.TrimLeadingSpace = true","	read.TrimLeadingSpace = true\n	read.FieldsPerRecord = -1")],
 "csv-comment": [(C,"	read.TrimLeadingSpace = true","	read.TrimLeadingSpace = true\n	read.Comment = '#'")],
 "csv-nosep": [(C,"	read.Comma = sep\n","	if sep != 0 && sep != '\\t' {\n		read.Comma = sep\n	}\n")],
 "csv-skiphdr": [(C,"		ini := 0\n		if hasLabels {\n			ini = 1\n		}","		ini := 1")],
 "csv-eofonly": [(C,"	if !errors.Is(err2, io.EOF) {\n		return nil, err2\n	}","	if !errors.Is(err2, io.EOF) && len(data) == 0 {\n		return nil, err2\n	}")],
 "csv-dropfirst": [(C,"		n = len(d)\n		data = append(data, d)","		if n = len(d); n == 0 {\n			continue\n		}\n		data = append(data, d)")],
 "svm-lastline": [(L,"		if err2 != nil && (err2 != io.EOF || line == \"\") {","		if err2 != nil {")],
 "svm-skipblank": [(L,"		t := make([]float64, 0, len(headers))","		if strings.TrimSpace(line) == \"\" {\n			continue\n		}\n		t := make([]float64, 0, len(headers))")],
 "svm-header-always": [(L,"if hasHeader && cont == 0 {","if hasHeader && len(data) == 0 {")],
 "svm-nolen": [(L,"if len(data) > 0 && len(t) != len(data[0]) {","if len(data) > 0 && len(t) < len(data[0]) {")],
 "svm-reuse": [(L,"		l, _, t, err = parseLibSVMLine(line, false, nil, nil)","		if len(data) > 0 {\n			t = data[len(data)-1]\n		}\n		l, _, t, err = parseLibSVMLine(line, false, nil, t)")],
 "svm-labelorder": [(L,"		data = append(data, t)\n		labels = append(labels, l)","		data = append(data, t)\n		if l >= 0 {\n			labels = append(labels, l)\n		}")],
 "svm-termidx": [(L,"		feat := feats[1]\n","		feat := feats[1]\n		if feats[0] == \"0\" {\n			continue\n		}\n")],
 "svm-nocolon": [(L,"if len(feats) != 2 {","if len(feats) > 2 {")],
 "svm-nofloat": [(L,"			if err != nil {\n				return class, nil, nil, err\n			}","			if err != nil {\n				val = 0\n			}")],
 "svm-emptyok": [(L,"	if len(fields) == 0 {\n		return -1, nil, nil, fmt.Errorf(\"Empty line\")\n	}","	if len(fields) == 0 {\n		return -1, nil, nil, nil\n	}")],
 "svm-readerr": [(L,"	if err2.Error() != \"EOF\" {\n		return nil, err2\n	}","	if err2.Error() != \"EOF\" && len(data) == 0 {\n		return nil, err2\n	}")],
 "svm-file-hdr": [(L,"	if len(hasHeader) > 0 {\n		hasaheader","	if len(hasHeader) > 1 {\n		hasaheader")],
 "csv-file-sep": [(C,"	if len(separator) != 0 {\n		sep = separator[0]","	if len(separator) > 1 {\n		sep = separator[0]")],
 "names-last": [(N,"rerr == nil || (rerr == io.EOF && s != \"\");","rerr == nil;")],
 "names-key": [(N,"		ret[num] = l[1]","		ret[len(ret)] = l[1]\n		_ = num")],
 "names-first": [(N,"		ret[num] = l[1]","		if _, ok := ret[num]; !ok {\n			ret[num] = l[1]\n		}")],
 "names-last-field": [(N,"		ret[num] = l[1]","		ret[num] = l[len(l)-1]")],
 "names-err": [(N,"		num, err := strconv.Atoi(l[0])\n		if err != nil {\n			return nil, err\n		}","		num, _ := strconv.Atoi(l[0])")],
 "names-skip": [(N,"		if len(l) < 2 {\n			return nil, fmt.Errorf(\"Malformed line in label names file: %q\", s)\n		}","		if len(l) < 2 {\n			continue\n		}")],
 "names-readerr": [(N,"	if !errors.Is(rerr, io.EOF) {","	if !errors.Is(rerr, io.EOF) && len(ret) == 0 {")],
 # C24
 "exp-label": [(L,"	if len(D.Labels) == len(D.Data) {\n		return D.Labels[i]","	if len(D.Labels) > i {\n		return D.Labels[i]")],
 "exp-prec": [(C,'fmt.Sprintf("%v", w)','fmt.Sprintf("%.6g", w)')],
 "exp-svmprec": [(L,'fmt.Sprintf("%d:%v", j+1, w)','fmt.Sprintf("%d:%f", j+1, w)')],
 "exp-zero": [(L,'			s := fmt.Sprintf("%d:%v", j+1, w)\n','			if w == 0 && j > 0 {\n				continue\n			}\n			s := fmt.Sprintf("%d:%v", j+1, w)\n')],
 "exp-idx": [(L,'fmt.Sprintf("%d:%v", j+1, w)','fmt.Sprintf("%d:%v", j, w)')],
 "exp-hdr": [(C,"if len(D.Keys) == l && l > 0 {","if len(D.Keys) >= l && l > 0 {")],
 "exp-sep": [(C,'		ret = append(ret, strings.Join(dline, sep))','		ret = append(ret, strings.Join(dline, ","))')],
 "exp-nohdr-empty": [(L,"	l := len(D.Keys)\n","	l := 0\n")],
 "exp-crlf": [(C,'	return strings.Join(ret, "\\n")','	return strings.Join(ret, "\\r\\n")')],
}
