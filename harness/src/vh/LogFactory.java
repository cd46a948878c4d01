package vh;

import java.net.URI;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;
import org.apache.logging.log4j.Level;
import org.apache.logging.log4j.Marker;
import org.apache.logging.log4j.message.Message;
import org.apache.logging.log4j.message.MessageFactory;
import org.apache.logging.log4j.simple.SimpleLogger;
import org.apache.logging.log4j.spi.ExtendedLogger;
import org.apache.logging.log4j.spi.LoggerContext;
import org.apache.logging.log4j.spi.LoggerContextFactory;
import org.apache.logging.log4j.util.PropertiesUtil;

/** Hands the log lines (of level info and above) to the running experiment. */
public final class LogFactory implements LoggerContextFactory, LoggerContext {

  /** Receives the name of the logger, the level, the line and what was thrown. */
  interface Sink {
    void line(String logger, String level, String line, Throwable t);
  }

  static volatile Sink sink;

  private final Map<String, ExtendedLogger> loggers = new ConcurrentHashMap<>();

  private static final class L extends SimpleLogger {
    L(String name, MessageFactory f) {
      super(name, Level.INFO, false, false, false, false, "", f, new PropertiesUtil(new java.util.Properties()), System.err);
    }

    @Override
    public void logMessage(String fqcn, Level level, Marker m, Message msg, Throwable t) {
      Sink s = sink;
      if (s != null) {
        s.line(getName(), level.name(), msg.getFormattedMessage(), t == null ? msg.getThrowable() : t);
      }
    }
  }

  @Override
  public LoggerContext getContext(String f, ClassLoader l, Object x, boolean c) {
    return this;
  }

  @Override
  public LoggerContext getContext(String f, ClassLoader l, Object x, boolean c, URI u, String n) {
    return this;
  }

  @Override
  public void removeContext(LoggerContext c) {
  }

  @Override
  public boolean isClassLoaderDependent() {
    return false;
  }

  @Override
  public Object getExternalContext() {
    return null;
  }

  @Override
  public ExtendedLogger getLogger(String n) {
    return getLogger(n, (MessageFactory) null);
  }

  @Override
  public ExtendedLogger getLogger(String n, MessageFactory f) {
    return loggers.computeIfAbsent(n, k -> new L(k, f));
  }

  @Override
  public boolean hasLogger(String n) {
    return loggers.containsKey(n);
  }

  @Override
  public boolean hasLogger(String n, Class<? extends MessageFactory> c) {
    return loggers.containsKey(n);
  }

  @Override
  public boolean hasLogger(String n, MessageFactory f) {
    return loggers.containsKey(n);
  }
}
