package javax.ws.rs;
import java.lang.annotation.*;
@Retention(RetentionPolicy.RUNTIME)
@Target(ElementType.METHOD) @HttpMethod("DELETE")
public @interface DELETE {

}
