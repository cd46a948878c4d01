package vh;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** A small JSON reader. */
final class Json {

  private final String s;
  private int i;

  private Json(String s) {
    this.s = s;
  }

  static Object parse(String s) {
    return new Json(s).value();
  }

  private void ws() {
    while (i < s.length() && s.charAt(i) <= ' ') {
      i++;
    }
  }

  private Object value() {
    ws();
    char c = s.charAt(i);
    switch (c) {
      case '{': {
        Map<String, Object> m = new LinkedHashMap<>();
        i++;
        for (ws(); s.charAt(i) != '}'; ws()) {
          String k = (String) value();
          ws();
          i++;
          m.put(k, value());
          ws();
          if (s.charAt(i) == ',') {
            i++;
          }
        }
        i++;
        return m;
      }
      case '[': {
        List<Object> l = new ArrayList<>();
        i++;
        for (ws(); s.charAt(i) != ']'; ws()) {
          l.add(value());
          ws();
          if (s.charAt(i) == ',') {
            i++;
          }
        }
        i++;
        return l;
      }
      case '"': {
        StringBuilder b = new StringBuilder();
        for (i++; s.charAt(i) != '"'; i++) {
          if (s.charAt(i) == '\\') {
            i++;
            switch (s.charAt(i)) {
              case 'n':
                b.append('\n');
                break;
              case 't':
                b.append('\t');
                break;
              case 'r':
                b.append('\r');
                break;
              case 'u':
                b.append((char) Integer.parseInt(s.substring(i + 1, i + 5), 16));
                i += 4;
                break;
              default:
                b.append(s.charAt(i));
            }
          } else {
            b.append(s.charAt(i));
          }
        }
        i++;
        return b.toString();
      }
      default: {
        int j = i;
        while (i < s.length() && ",]} ".indexOf(s.charAt(i)) < 0) {
          i++;
        }
        String w = s.substring(j, i);
        return w.equals("true") ? Boolean.TRUE : w.equals("false") ? Boolean.FALSE
            : w.equals("null") ? null : (Object) Long.valueOf(w);
      }
    }
  }
}
