package main

import "strings"

// oddText writes a module from the grammar alone: everything it accepts in any
// place, whether or not it makes sense to a 1C programmer. There is no tree to
// compare with; such texts serve where the library is compared with itself or
// only has to survive.
func oddText(r *Rng) []byte {
	o := &odd{r: r, left: r.Log(120)}
	for i := r.N(4); i > 0; i-- {
		if r.P(60) {
			o.global()
		} else {
			o.proc()
		}
	}
	if r.P(75) {
		o.body(2)
	}
	return []byte(o.b.String())
}

type odd struct {
	r    *Rng
	b    strings.Builder
	left int
}

func (o *odd) w(s ...string) {
	for _, x := range s {
		o.b.WriteString(x)
		o.b.WriteString(pick(o.r, " ", " ", " ", "\n", "\t"))
	}
}

var oddNames = []string{"а", "Б1", "_", "Если1", "х", "Ё", "Имя", "б", "в", "г", "а"}

func (o *odd) name() string {
	if o.r.P(5) {
		return pick(o.r, "Истина1", "_новый", "Z", "ОченьДлинноеИмяКотороеЕдваПомещается", "ё")
	}
	return pick(o.r, oddNames...)
}

func (o *odd) names() {
	o.w(o.name())
	n := o.r.Log(6) - 1
	if o.r.P(20) {
		n = o.r.In(4, 10)
	}
	for i := n; i > 0; i-- {
		o.w(",", o.name())
	}
}

func (o *odd) directive() {
	if o.r.P(25) {
		o.w(pick(o.r, "&НаКлиенте", "&НаСервере", "&НаСервереБезКонтекста", "&НаКлиентеНаСервереБезКонтекста"))
	}
}

func (o *odd) export() {
	if o.r.P(30) {
		o.w("Экспорт")
	}
}

func (o *odd) global() {
	o.directive()
	o.w("Перем")
	o.names()
	o.export()
	o.w(";")
}

func (o *odd) proc() {
	f := o.r.P(50)
	o.directive()
	o.w(map[bool]string{true: "Функция", false: "Процедура"}[f], o.name(), "(")
	for i, n := 0, o.r.N(4); i < n; i++ {
		if i > 0 || o.r.P(5) {
			o.w(",")
		}
		if o.r.P(20) {
			o.w("Знач")
		}
		o.w(o.name())
		for o.r.P(25) {
			o.w("=")
			o.simple(1)
		}
	}
	o.w(")")
	o.export()
	for o.r.P(30) {
		o.w("Перем")
		o.names()
		o.w(";")
	}
	if o.r.P(85) {
		o.body(2)
	}
	o.w(map[bool]string{true: "КонецФункции", false: "КонецПроцедуры"}[f])
}

func (o *odd) body(d int) {
	for i := o.r.N(5); i > 0 && o.left > 0; i-- {
		if o.r.P(90) {
			o.stmt(d)
		}
		o.w(pick(o.r, ";", ";", ";", ";", ";", ";", ";", ";", ":"))
	}
	if o.r.P(30) {
		o.stmt(d)
	}
}

func (o *odd) stmt(d int) {
	o.left--
	x := o.r.N(16)
	if d == 0 && x >= 4 && x < 10 {
		x = 0
	}
	switch x {
	case 0, 1:
		o.chain(2)
		o.w("=")
		o.expr(3)
	case 2:
		o.expr(3)
	case 3:
		o.chain(3)
	case 4, 5:
		o.w("Если")
		o.expr(2)
		o.w("Тогда")
		o.body(d - 1)
		for i := o.r.N(3); i > 0; i-- {
			o.w("ИначеЕсли")
			o.expr(1)
			o.w("Тогда")
			o.body(d - 1)
		}
		if o.r.P(40) {
			o.w("Иначе")
			o.body(d - 1)
		}
		o.w("КонецЕсли")
	case 6:
		o.w("Пока")
		o.expr(2)
		o.w("Цикл")
		o.body(d - 1)
		o.w("КонецЦикла")
	case 7:
		o.w("Для")
		o.expr(1)
		o.w("По")
		o.expr(1)
		o.w("Цикл")
		o.body(d - 1)
		o.w("КонецЦикла")
	case 8:
		o.w("Для", "Каждого", o.name(), "Из")
		switch o.r.N(4) {
		case 0:
			o.object(1)
		case 1:
			o.w("(")
			o.object(1)
			o.w(")")
		case 2:
			o.ternary(1)
		default:
			o.chain(2)
		}
		o.w("Цикл")
		o.body(d - 1)
		o.w("КонецЦикла")
	case 9:
		o.w("Попытка")
		o.body(d - 1)
		o.w("Исключение")
		o.body(d - 1)
		o.w("КонецПопытки")
	case 10:
		o.w(pick(o.r, "Прервать", "Продолжить"))
	case 11, 12:
		o.w("ВызватьИсключение")
		if o.r.P(80) {
			o.expr(2)
		}
	case 13:
		o.w("Возврат")
		if o.r.P(70) {
			o.expr(2)
		}
	case 14:
		o.w("Перейти", "~"+o.name())
	default:
		o.w("~" + o.name())
	}
}

func (o *odd) chain(d int) {
	o.ident(d)
	for o.r.P(35) {
		o.w(".")
		o.ident(d)
	}
}

func (o *odd) ident(d int) {
	switch x := o.r.N(12); {
	case x < 6 || d <= 0:
		o.w(o.name())
	case x < 9:
		o.w(o.name(), "(")
		o.exprs(d - 1)
		o.w(")")
	case x < 10:
		o.w("Выполнить", "(")
		o.expr(d - 1)
		o.w(")")
	case x < 11:
		o.w("Выполнить", pick(o.r, `"а = 1;"`, `""`, "а"))
	default:
		o.ident(d - 1)
		o.w("[")
		o.expr(d - 1)
		o.w("]")
		return
	}
	for o.r.P(15) {
		o.w("[")
		o.expr(d - 1)
		o.w("]")
	}
}

func (o *odd) exprs(d int) {
	for i := o.r.N(4); i >= 0; i-- {
		if o.r.P(75) {
			o.expr(d)
		}
		if i > 0 {
			o.w(",")
		}
	}
}

func (o *odd) ternary(d int) {
	o.w("?", "(")
	o.expr(d - 1)
	o.w(",")
	o.expr(d - 1)
	o.w(",")
	o.expr(d - 1)
	o.w(")")
}

func (o *odd) object(d int) {
	switch o.r.N(3) {
	case 0:
		o.w("Новый", o.name())
	case 1:
		o.w("Новый", o.name(), "(")
		o.exprs(d - 1)
		o.w(")")
	default:
		o.w("Новый", "(")
		o.exprs(d - 1)
		o.w(")")
	}
}

func (o *odd) expr(d int) {
	o.left--
	if d <= 0 || o.left < 0 {
		o.simple(0)
		return
	}
	switch o.r.N(12) {
	case 0, 1, 2:
		o.expr(d - 1)
		o.w(pick(o.r, "+", "-", "*", "/", "%", ">", "<", "=", "ИЛИ", "И", "<>", "<=", ">="))
		o.expr(d - 1)
	case 3:
		o.w("(")
		o.exprs(d - 1)
		o.w(")")
	case 4:
		o.w("Не")
		o.expr(d - 1)
	case 5:
		o.object(d)
	case 6:
		o.ternary(d)
	case 7:
		if o.r.P(20) {
			o.w("Перейти", "~"+o.name())
			break
		}
		fallthrough
	case 8, 9:
		o.chain(d)
	default:
		o.simple(d)
	}
}

func (o *odd) simple(d int) {
	switch x := o.r.N(16); {
	case x < 4:
		o.w(pick(o.r, `""`, `"с"`, `"а""б"`, "\"а\n|б\"", `"Ж"" // \"`, `" "`, `"""`+`"`, "\"\t;\""))
	case x < 7:
		o.w(pick(o.r, "0", "1", "007", "2.5", "1.", "999999999999999999999", "0.0000001", "1.50"))
	case x < 9:
		o.w(pick(o.r, "'20200101'", "'20200101123456'", "'00010101'", "'2020-01-01'", "'39991231235959'", "'0001.01.01 00:00:00'"))
	case x < 10:
		o.w(pick(o.r, "Истина", "Ложь", "true", "False"))
	case x < 12:
		o.w("Неопределено")
	case x < 13 && d > 0:
		o.w(pick(o.r, "-", "+"))
		o.expr(d - 1)
	case x < 14:
		o.w(pick(o.r, "-", "+"))
		o.w(pick(o.r, "1", "а", `"с"`, "Истина", "'20200101'", "Неопределено", "2.5", "(1, 2)", "()"))
	case x < 15:
		o.w("~" + o.name())
	default:
		o.w(o.name())
	}
}
